//! C22: creates many layers and seeds and looks whether their keys are their own, or the ones given.
use pkstl::{MessageFormat, MinimalSecureLayer, SecureLayer, SecureLayerConfig, Seed32};
use ring::signature::{Ed25519KeyPair, KeyPair};
use std::collections::HashMap;
use std::io::BufWriter;
use std::panic::{catch_unwind, AssertUnwindSafe};

type Found = Vec<(String, String)>;
/// (ephemeral key, signature key)
fn full(seed: Option<[u8; 32]>, cfg: SecureLayerConfig, expect: Option<Vec<u8>>) -> Option<(Vec<u8>, Vec<u8>)> {
    catch_unwind(AssertUnwindSafe(|| {
        let mut l = SecureLayer::create(cfg, seed.map(Seed32::new), expect).ok()?;
        let mut w = BufWriter::new(vec![]);
        l.write_connect_msg_bin(None, &mut w).ok()?;
        let b = w.into_inner().ok()?;
        if b.len() < 86 {
            return None;
        }
        Some((b[18..50].to_vec(), b[54..86].to_vec()))
    }))
    .ok()
    .flatten()
}
fn minimal(cfg: SecureLayerConfig, pk: &[u8], expect: Option<Vec<u8>>) -> Option<Vec<u8>> {
    catch_unwind(AssertUnwindSafe(|| {
        let mut l = MinimalSecureLayer::create(cfg, expect).ok()?;
        let b = l.create_connect_message(pk, None).ok()?;
        if b.len() < 50 {
            return None;
        }
        Some(b[18..50].to_vec())
    }))
    .ok()
    .flatten()
}
fn cfg(i: usize) -> SecureLayerConfig {
    SecureLayerConfig {
        compression_min_size: [8192, 0, 100][i % 3],
        message_format: [MessageFormat::RawBinary, MessageFormat::Cbor][i % 2],
        ..SecureLayerConfig::default()
    }
}
/// a key met before, or a bit or byte that never changes
fn judge(what: &str, keys: &[(Vec<u8>, String)], bits: bool, out: &mut Found) {
    let mut m: HashMap<&[u8], &str> = HashMap::new();
    for (k, how) in keys {
        if let Some(o) = m.insert(k, how) {
            out.push(("repeated-key".into(), format!("{}: {} and {} have the same: {:02x?}", what, o, how, k)));
            return;
        }
    }
    let (mut one, mut zero) = (vec![0u8; 32], vec![0u8; 32]);
    for (k, _) in keys {
        for i in 0..32 {
            one[i] |= k[i];
            zero[i] |= !k[i];
        }
    }
    for i in 0..32 {
        if if bits { one[i] & zero[i] != 255 } else { one[i] & zero[i] == 0 } {
            out.push(("stuck-bits".into(), format!("{}: bits of byte {} are the same in all of {}", what, i, keys.len())));
            return;
        }
    }
}
/// the seeds taken as vectors over GF(2): drawn ones span everything
fn span(keys: &[(Vec<u8>, String)], out: &mut Found) {
    let mut basis: Vec<Option<Vec<u8>>> = vec![None; 256];
    let mut rank = 0;
    for (k, _) in keys.iter().skip(1) {
        let mut v: Vec<u8> = k.iter().zip(&keys[0].0).map(|(a, b)| a ^ b).collect();
        for i in 0..256 {
            if v[i / 8] >> (i % 8) & 1 == 1 {
                match &basis[i] {
                    Some(b) => v.iter_mut().zip(b).for_each(|(x, y)| *x ^= y),
                    None => {
                        basis[i] = Some(v);
                        rank += 1;
                        break;
                    }
                }
            }
        }
    }
    if keys.len() > 1000 && rank < 256 {
        out.push(("dependent-bits".into(), format!("{} random seeds span {} of 256 dimensions: some of their bits follow from the others", keys.len(), rank)));
    }
}
pub fn search(seed: u64) -> (Vec<serde_json::Value>, u64) {
    let mut out: Found = vec![];
    let mut n = 0;
    let (mut seeds, mut epks, mut sigs) = (vec![], vec![], vec![]);
    let own: Vec<[u8; 32]> = (0..40u8).map(|i| { let mut s = [0u8; 32]; for (j, b) in s.iter_mut().enumerate() { *b = (seed as u8).wrapping_add(i).wrapping_mul(17 + j as u8) ^ (j as u8).wrapping_mul(i); } s }).collect();
    let part = |t: usize| {
        let (mut seeds, mut epks, mut sigs, mut out, mut n) = (vec![], vec![], vec![], vec![], 0u64);
        for i in 0..600 {
            n += 1;
            let name = format!("number {} of thread {}", i, t);
            match catch_unwind(Seed32::random) {
                Ok(s) => seeds.push((s.as_ref().to_vec(), name.clone())),
                Err(_) => out.push(("panic".into(), "drawing a random seed panics".into())),
            }
            let exp = [None, Some(own[i % 40].to_vec())][i % 2].clone();
            if let Some(e) = minimal(cfg(i), &own[(i / 7) % 40], exp.clone()) {
                epks.push((e, format!("minimal layer {}", name)));
            }
            if let Some((e, s)) = full(None, cfg(i), exp.clone()) {
                epks.push((e, format!("complete layer {} without a seed", name)));
                sigs.push((s, format!("complete layer {}", name)));
            }
            let g = own[(i / 3) % 40];
            if let Some((e, s)) = full(Some(g), cfg(i), exp) {
                epks.push((e, format!("complete layer {} with a seed", name)));
                let want = Ed25519KeyPair::from_seed_unchecked(&g).unwrap();
                if s != want.public_key().as_ref() {
                    out.push(("seed-ignored".into(), format!("the layer created with the seed {:02x?} announces the signature key {:02x?}, which is not the key of this seed", g, s)));
                }
            }
            if Seed32::new(g).as_ref() != g {
                out.push(("seed-ignored".into(), format!("the seed made from {:02x?} is another one", g)));
            }
        }
        (seeds, epks, sigs, out, n)
    };
    std::thread::scope(|sc| {
        let hs: Vec<_> = (0..8).map(|t| { let part = &part; sc.spawn(move || part(t)) }).collect();
        for h in hs {
            if let Ok((a, b, c, o, k)) = h.join() {
                seeds.extend(a);
                epks.extend(b);
                sigs.extend(c);
                out.extend(o);
                n += k;
            }
        }
    });
    judge("random seeds", &seeds, true, &mut out);
    span(&seeds, &mut out);
    judge("ephemeral keys", &epks, false, &mut out);
    judge("signature keys of layers without a seed", &sigs, false, &mut out);
    let mut kinds = std::collections::HashSet::new();
    (out.into_iter().filter(|(k, _)| kinds.insert(k.clone())).map(|(k, w)| serde_json::json!({"kind": k, "what": w})).collect(), n * 4)
}
