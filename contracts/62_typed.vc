// typed mode
@fn format::MessageFormat::as_ref()
ensures[*] 'its code' ret@ == code4(fcode(*self))

@fn format::MessageFormat::try_from(bytes)
ensures[*] 'the format with this code' match fdecode(bytes@) { Some(f) => ret is Ok && ret->Ok_0 == f, None => ret is Err }

@fn complete::serde::serializer::serialize(message, message_format)
ensures[*] 'code and value' ret is Ok ==> ser(message_format, *message) == Some(ret->Ok_0@)
ensures[*] 'whenever the format can' ser(message_format, *message) is Some ==> ret is Ok
tags C18

@fn complete::serde::serializer::serialize_inner(message, message_format, writer)
ensures[*] 'the value' ret is Ok ==> typed_format(message_format) && enc(fcode(message_format), *message) is Some && final(writer).out() == old(writer).out() + enc(fcode(message_format), *message)->0
ensures[*] 'whenever the format can' typed_format(message_format) && enc(fcode(message_format), *message) is Some && old(writer).total() ==> ret is Ok
ensures[*] 'writer' final(writer).total() == old(writer).total() && final(writer).full() == old(writer).full()

@fn complete::serde::deserializer::deserialize(binary_message)
ensures[*] 'by the format it names' match deser::<M>(binary_message@) { Some(x) => ret is Ok && ret->Ok_0 == x, None => ret is Err }
tags C18

@fn complete::serde::deserializer::deserialize_inner(binary_message, message_format)
ensures[*] 'by the format given' match deser_in::<M>(message_format, binary_message@) { Some(x) => ret is Ok && ret->Ok_0 == x, None => ret is Err }
