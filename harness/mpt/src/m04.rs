//! Nibble strings behave as strings of nibbles.

use ethereum_types::{H256, U256};
use mpt_trie::nibbles::{Nibbles, ToNibbles};
use std::str::FromStr;
use vh_core::*;

use crate::model::*;

fn rk(c: &mut Case, max: usize) -> Key {
    let n = match c.below(5) {
        0 => *[0usize, 1, 2, 15, 16, 17, 31, 32, 33, 62, 63, 64].choose(&mut c.rng).unwrap(),
        _ => c.below(max + 1),
    }
    .min(max);
    let z = c.below(4);
    (0..n).map(|i| if z == 0 || (z == 1 && i < n / 2) || (z == 2 && i > n / 2) { *[0u8, 0, 15].choose(&mut c.rng).unwrap() } else { c.below(16) as u8 }).collect()
}

fn eq(got: Nibbles, want: &[u8], what: &str) -> R {
    check!(got == nib(want), "{what}: observed {got:?}, specified {} nibbles {}", want.len(), hex(want));
    check!(got.packed >> (4 * got.count) == mpt_trie::nibbles::NibblesIntern::zero(), "{what}: bits beyond the {} nibbles are set", got.count);
    Ok(())
}

fn algebra(c: &mut Case) -> R {
    let a = rk(c, 64);
    let b = { let mut b = rk(c, 64); if c.chance(0.4) { let n = c.below(a.len() + 1); b = a[..n].to_vec(); if c.chance(0.5) { let r = rk(c, 64 - n); b.extend(r); } } b };
    let (na, nb) = (nib(&a), nib(&b));
    c.log(|| format!("a = {}, b = {}", hex(&a), hex(&b)));
    let h = |k: &[u8]| hex(k);

    check_eq!(na == nb, a == b, "equality");
    check_eq!(na.is_empty(), a.is_empty(), "is_empty");
    for i in 0..a.len() {
        check_eq!(na.get_nibble(i), a[i], "get_nibble({i}) of {}", h(&a));
    }
    let l = a.len().min(b.len());
    check_eq!(na.nibbles_are_identical_up_to_smallest_count(&nb), a[..l] == b[..l], "prefix comparison of {} and {}", h(&a), h(&b));
    let d = a.iter().zip(&b).take_while(|(x, y)| x == y).count();
    check_eq!(Nibbles::find_nibble_idx_that_differs_between_nibbles_different_lengths(&na, &nb), d, "first difference of {} and {}", h(&a), h(&b));
    if a.len() == b.len() {
        check_eq!(Nibbles::find_nibble_idx_that_differs_between_nibbles_equal_lengths(&na, &nb), d, "first difference");
    }
    // cuts
    let i = c.below(a.len() + 1);
    let j = i + c.below(a.len() - i + 1);
    eq(na.get_nibble_range(i..j), &a[i..j], &format!("get_nibble_range({i}..{j})"))?;
    eq(na.get_next_nibbles(i), &a[..i], &format!("get_next_nibbles({i})"))?;
    let (p, q) = na.split_at_idx(i);
    eq(p, &a[..i], &format!("split_at_idx({i}).0"))?;
    eq(q, &a[i..], &format!("split_at_idx({i}).1"))?;
    eq(na.split_at_idx_prefix(i), &a[..i], &format!("split_at_idx_prefix({i})"))?;
    eq(na.split_at_idx_postfix(i), &a[i..], &format!("split_at_idx_postfix({i})"))?;
    eq(p.merge_nibbles(&q), &a, "merge of a split")?;
    let over = i + c.below(3) * c.below(100);
    eq(na.truncate_n_nibbles_front(over), &a[over.min(a.len())..], &format!("truncate_n_nibbles_front({over})"))?;
    eq(na.truncate_n_nibbles_back(over), &a[..a.len() - over.min(a.len())], &format!("truncate_n_nibbles_back({over})"))?;
    let rev: Key = a.iter().rev().copied().collect();
    eq(na.reverse(), &rev, "reverse")?;
    let mut x = na;
    eq(x.pop_nibbles_front(i), &a[..i], &format!("pop_nibbles_front({i})"))?;
    eq(x, &a[i..], &format!("rest after pop_nibbles_front({i})"))?;
    let mut x = na;
    let popped: Key = a[a.len() - i..].iter().rev().copied().collect();
    eq(x.pop_nibbles_back(i), &popped, &format!("pop_nibbles_back({i})"))?;
    eq(x, &a[..a.len() - i], &format!("rest after pop_nibbles_back({i})"))?;
    if !a.is_empty() {
        let mut x = na;
        check_eq!(x.pop_next_nibble_front(), a[0], "pop_next_nibble_front");
        eq(x, &a[1..], "rest after pop_next_nibble_front")?;
        let mut x = na;
        check_eq!(x.pop_next_nibble_back(), a[a.len() - 1], "pop_next_nibble_back");
        eq(x, &a[..a.len() - 1], "rest after pop_next_nibble_back")?;
    }
    // joins
    let n = c.below(16) as u8;
    if a.len() < 64 {
        let mut x = na;
        x.push_nibble_front(n);
        eq(x, &[&[n], &a[..]].concat(), "push_nibble_front")?;
        let mut x = na;
        x.push_nibble_back(n);
        eq(x, &[&a[..], &[n]].concat(), "push_nibble_back")?;
        eq(na.merge_nibble(n), &[&a[..], &[n]].concat(), "merge_nibble")?;
    }
    let b2 = &b[..b.len().min(64 - a.len())];
    let nb2 = nib(b2);
    let ab = [&a[..], b2].concat();
    eq(na.merge_nibbles(&nb2), &ab, "merge_nibbles")?;
    let mut x = na;
    x.push_nibbles_back(&nb2);
    eq(x, &ab, "push_nibbles_back")?;
    let mut x = na;
    x.push_nibbles_front(&nb2);
    eq(x, &[b2, &a[..]].concat(), "push_nibbles_front")?;
    c.distinct((&a, &b));
    c.evals(30);
    Ok(())
}

fn codings(c: &mut Case) -> R {
    let a = rk(c, 64);
    let na = nib(&a);
    c.log(|| format!("a = {}", hex(&a)));
    for leaf in [false, true] {
        check_eq!(na.to_hex_prefix_encoding(leaf).to_vec(), hex_prefix(&a, leaf), "hex-prefix encoding of {} (leaf: {leaf})", hex(&a));
    }
    let back = Nibbles::from_hex_prefix_encoding(&hex_prefix(&a, false)).map_err(|e| e.to_string())?;
    eq(back, &a, "decoded hex-prefix encoding")?;
    if a.len() <= 62 {
        // A leaf's terminator is decoded as the two nibbles 1, 0 after the path.
        let back = Nibbles::from_hex_prefix_encoding(&hex_prefix(&a, true)).map_err(|e| e.to_string())?;
        eq(back, &[&a[..], &[1, 0]].concat(), "decoded hex-prefix encoding of a leaf")?;
    }
    let bytes: Vec<u8> = { let mut p = a.clone(); if p.len() % 2 == 1 { p.insert(0, 0); } p.chunks(2).map(|x| x[0] << 4 | x[1]).collect() };
    check_eq!(na.bytes_be(), bytes, "bytes_be of {}", hex(&a));
    check_eq!(na.min_bytes(), bytes.len(), "min_bytes");
    let le: Vec<u8> = bytes.iter().rev().copied().collect();
    check_eq!(na.as_byte_slice().to_vec(), le, "as_byte_slice (little-endian bytes)");
    let mut w = [0u8; 32];
    w[32 - bytes.len()..].copy_from_slice(&bytes);
    check_eq!(H256::from(na).0, w, "conversion to H256");
    check_eq!(U256::try_from(&na).unwrap(), U256::from_big_endian(&w), "conversion to U256");
    let into: U256 = na.try_into().unwrap();
    check_eq!(into, U256::from_big_endian(&w), "conversion into U256");
    check_eq!(format!("{na:x}"), format!("0x{}", hex(&a)), "hexadecimal form");
    check_eq!(format!("{na:X}"), format!("0x{}", hex(&a).to_uppercase()), "upper-case hexadecimal form");
    check_eq!(format!("{na}"), format!("0x{}", hex(&a)), "display form");
    if !a.is_empty() {
        eq(Nibbles::from_str(&format!("0x{}", hex(&a))).map_err(|e| e.to_string())?, &a, "parsed with 0x")?;
        eq(Nibbles::from_str(&hex(&a)).map_err(|e| e.to_string())?, &a, "parsed")?;
    }
    if a.len() % 2 == 0 && !a.is_empty() {
        eq(Nibbles::from_bytes_be(&bytes).map_err(|e| e.to_string())?, &a, "from_bytes_be")?;
        eq(Nibbles::from_bytes_le(&le).map_err(|e| e.to_string())?, &a, "from_bytes_le")?;
    }
    check!(Nibbles::from_bytes_be(&[]).is_err(), "from_bytes_be of nothing");
    let full: Key = w.iter().flat_map(|b| [b >> 4, b & 15]).collect();
    eq(Nibbles::from_h256_be(H256(w)), &full, "from_h256_be")?;
    let rev: Key = w.iter().rev().flat_map(|b| [b >> 4, b & 15]).collect();
    eq(Nibbles::from_h256_le(H256(w)), &rev, "from_h256_le")?;
    // integers: as many nibbles as are significant; padded to a whole byte on request
    let sig: Key = a.iter().copied().skip_while(|x| *x == 0).collect();
    let pad = |k: &Key| { let mut k = k.clone(); if k.len() % 2 == 1 { k.insert(0, 0); } k };
    let u = U256::from_big_endian(&w);
    eq(Nibbles::from(u), &sig, "from U256")?;
    eq(u.to_nibbles_byte_padded(), &pad(&sig), "from U256, padded")?;
    let v = u.low_u64();
    let sv: Key = format!("{v:x}").bytes().map(|b| (b as char).to_digit(16).unwrap() as u8).skip_while(|x| *x == 0).collect();
    eq(Nibbles::from(v), &sv, "from u64")?;
    eq(v.to_nibbles_byte_padded(), &pad(&sv), "from u64, padded")?;
    let v8 = v as u8;
    let s8: Key = [v8 >> 4, v8 & 15].into_iter().skip_while(|x| *x == 0).collect();
    eq(Nibbles::from(v8), &s8, "from u8")?;
    let v16 = v as u16;
    let s16: Key = [(v16 >> 12) as u8 & 15, (v16 >> 8) as u8 & 15, (v16 >> 4) as u8 & 15, v16 as u8 & 15].into_iter().skip_while(|x| *x == 0).collect();
    eq(Nibbles::from(v16), &s16, "from u16")?;
    eq(Nibbles::from_nibble(v8 & 15), &[v8 & 15], "from_nibble")?;
    c.distinct(&a);
    c.evals(28);
    c.sample(|| format!("{} -> leaf {:02x?}", hex(&a), hex_prefix(&a, true)));
    Ok(())
}

fn refusals(c: &mut Case) -> R {
    // Lengths beyond 64 nibbles, and nibbles beyond 15, are refused, not truncated.
    let a: Key = (0..64).map(|_| c.below(16) as u8).collect();
    let na = nib(&a);
    let refuse = |f: &dyn Fn() -> Nibbles, what: &str| -> R {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f()));
        check!(r.is_err(), "{what} of an overlong string gave {:?}", r);
        Ok(())
    };
    refuse(&|| { let mut x = na; x.push_nibble_back(1); x }, "push_nibble_back")?;
    refuse(&|| { let mut x = na; x.push_nibble_front(1); x }, "push_nibble_front")?;
    refuse(&|| na.merge_nibble(1), "merge_nibble")?;
    let k = 1 + c.below(64);
    let b = nib(&a[..k]);
    refuse(&|| na.merge_nibbles(&b), "merge_nibbles")?;
    refuse(&|| { let mut x = na; x.push_nibbles_back(&b); x }, "push_nibbles_back")?;
    refuse(&|| { let mut x = na; x.push_nibbles_front(&b); x }, "push_nibbles_front")?;
    let bad = 16 + c.below(240) as u8;
    refuse(&|| Nibbles::from_nibble(bad), "from_nibble")?;
    refuse(&|| { let mut x = b; if k == 64 { x = nib(&a[..63]); } x.push_nibble_back(bad); x }, "push_nibble_back of a non-nibble")?;
    let long: Vec<u8> = (0..34 + c.below(10)).map(|_| 1).collect();
    check!(Nibbles::from_bytes_be(&long).is_err() && Nibbles::from_bytes_le(&long).is_err(), "bytes longer than 33 were accepted");
    check!(Nibbles::from_hex_prefix_encoding(&long).is_err(), "a hex-prefix encoding of {} bytes was accepted", long.len());
    let mut hp = hex_prefix(&a[..k], false);
    hp[0] = (hp[0] & 15) | ((4 + c.below(12) as u8) << 4);
    check!(Nibbles::from_hex_prefix_encoding(&hp).is_err(), "a hex-prefix encoding with flags {:x} was accepted", hp[0] >> 4);
    c.evals(11);
    c.count("refused", 11);
    Ok(())
}

pub fn run(c: &mut Check) {
    c.rule("a distinct observation is a distinct operand (pair) whose every operation was compared with the same operation on a vector of nibbles");
    c.require("refused", 1000);
    let n = c.n(150_000, 3_000_000);
    c.stage("algebra", n, algebra);
    c.stage("codings", n, codings);
    c.stage("refusals", n / 100, refusals);
}
