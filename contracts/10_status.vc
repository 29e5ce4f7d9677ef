// ------------------------------------------------------------------ negotiation state machine
@fn status::SecureLayerStatus::init()
ensures[*] 'nothing has happened yet' events(ret, false, false, false, false) && ongoing(ret) && st_ok(ret)

@fn status::SecureLayerStatus::apply_action(action)
ensures[*] 'the failed state is final' failed(*old(self)) ==> ret is Err && failed(*final(self))
ensures[*] 'create CONNECT' action == Action::Create(MsgType::Connect) && !failed(*old(self)) ==>
    if may_create(*old(self), MsgType::Connect) {
        ret is Ok && ret->Ok_0 is None && events(*final(self), true, pc(*old(self)), oa(*old(self)), pa(*old(self)))
    } else { ret is Err && (*final(self) == *old(self) || failed(*final(self))) }
ensures[*] 'create ACK' action == Action::Create(MsgType::Ack) && !failed(*old(self)) ==>
    if may_create(*old(self), MsgType::Ack) {
        ret is Ok && ret->Ok_0 is None && events(*final(self), cc(*old(self)), pc(*old(self)), true, pa(*old(self)))
    } else { ret is Err && (*final(self) == *old(self) || failed(*final(self))) }
ensures[*] 'create user message' action == Action::Create(MsgType::UserMsg) && !failed(*old(self)) ==>
    if success(*old(self)) { ret is Ok && ret->Ok_0 is None && *final(self) == *old(self) }
    else { ret is Err && (*final(self) == *old(self) || failed(*final(self))) }
ensures[*] 'receive CONNECT' action == Action::Receive(MsgType::Connect) && !failed(*old(self)) ==>
    if may_receive(*old(self), MsgType::Connect) {
        ret is Ok && ret->Ok_0 is None && events(*final(self), cc(*old(self)), true, oa(*old(self)), pa(*old(self)))
    } else { ret is Err && failed(*final(self)) }
ensures[*] 'receive ACK' action == Action::Receive(MsgType::Ack) && !failed(*old(self)) ==>
    if may_receive(*old(self), MsgType::Ack) {
        ret is Ok && ret->Ok_0 is None && events(*final(self), cc(*old(self)), pc(*old(self)), oa(*old(self)), true)
    } else { ret is Err && failed(*final(self)) }
ensures[*] 'receive user message' action == Action::Receive(MsgType::UserMsg) && !failed(*old(self)) ==>
    if success(*old(self)) { ret is Ok && ret->Ok_0 is None && *final(self) == *old(self) }
    else if keeps_user(*old(self)) {
        ret is Ok && ret->Ok_0 is Some && ret->Ok_0->0 is PushUserMsgIntoTmpStack && *final(self) == *old(self)
    } else { ret is Err && failed(*final(self)) }
ensures[*] 'four events make success' st_ok(*old(self)) ==> st_ok(*final(self))
ensures[*] 'success only after all four' success(*final(self)) && !success(*old(self)) ==> ret is Ok
