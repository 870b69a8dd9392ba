//! Reference models, written from Bitcoin's rules and independent of the code under test.
use primitive_types::{U256, U512};

/// Bitcoin's expansion of `nBits`; None when negative or overflowing.
pub fn expand(bits: u32) -> Option<U256> {
    let exp = (bits >> 24) as usize;
    let mant = bits & 0x007f_ffff;
    let neg = bits & 0x0080_0000 != 0;
    if mant == 0 {
        return Some(U256::zero());
    }
    // value = mant * 256^(exp-3), low bytes dropped when exp < 3
    let wide = if exp >= 3 {
        if exp - 3 > 40 {
            return None;
        }
        U512::from(mant) << (8 * (exp - 3))
    } else {
        U512::from(mant >> (8 * (3 - exp)))
    };
    if wide.is_zero() {
        return Some(U256::zero());
    }
    if neg {
        return None;
    }
    if wide > U512::from(U256::MAX) {
        return None;
    }
    Some(U256::try_from(wide).unwrap())
}

/// Whether Bitcoin would call these bits negative: sign set and, after the shift, non-zero.
pub fn compress(v: U256) -> u32 {
    // bytes needed
    let mut size = (v.bits() + 7) / 8;
    let mut mant: u32 = if size <= 3 {
        (v.low_u64() as u32) << (8 * (3 - size))
    } else {
        (v >> (8 * (size - 3))).low_u32()
    };
    if mant & 0x0080_0000 != 0 {
        mant >>= 8;
        size += 1;
    }
    mant | ((size as u32) << 24)
}

/// Bitcoin's difficulty adjustment (mainnet limit), on 64-bit signed times.
pub fn next_bits(prev: U256, first: u64, last: u64) -> u32 {
    const TWO_WEEKS: i128 = 14 * 24 * 3600;
    let span = (last as i128 - first as i128).clamp(TWO_WEEKS / 4, TWO_WEEKS * 4);
    let limit = (U256::one() << 224) - 1;
    let t = U512::from(prev) * U512::from(span as u64) / U512::from(TWO_WEEKS as u64);
    let t = if t > U512::from(limit) { limit } else { U256::try_from(t).unwrap() };
    compress(t)
}

/// Merkle root over leaf hashes (internal byte order), Bitcoin's duplicate-last rule.
pub fn merkle_root(leaves: &[[u8; 32]]) -> [u8; 32] {
    let mut l = leaves.to_vec();
    while l.len() > 1 {
        if l.len() % 2 == 1 {
            l.push(*l.last().unwrap());
        }
        l = l.chunks(2).map(|c| dsha(&[&c[0][..], &c[1][..]].concat())).collect();
    }
    l[0]
}

pub fn dsha(b: &[u8]) -> [u8; 32] {
    use rb::hashes::Hash;
    rb::hashes::sha256d::Hash::hash(b).to_byte_array()
}

pub fn sha(b: &[u8]) -> [u8; 32] {
    use rb::hashes::Hash;
    rb::hashes::sha256::Hash::hash(b).to_byte_array()
}

pub fn hash160(b: &[u8]) -> [u8; 20] {
    use rb::hashes::Hash;
    rb::hashes::hash160::Hash::hash(b).to_byte_array()
}

pub fn varint(n: u64) -> Vec<u8> {
    if n < 0xfd {
        vec![n as u8]
    } else if n <= 0xffff {
        let mut v = vec![0xfd];
        v.extend((n as u16).to_le_bytes());
        v
    } else if n <= 0xffff_ffff {
        let mut v = vec![0xfe];
        v.extend((n as u32).to_le_bytes());
        v
    } else {
        let mut v = vec![0xff];
        v.extend(n.to_le_bytes());
        v
    }
}

/// A `gettxoutproof` answer for the leaves marked in `want`: flag bits, hashes.
pub fn partial_tree(leaves: &[[u8; 32]], want: &[bool]) -> (Vec<bool>, Vec<[u8; 32]>) {
    // levels[0] = leaves, levels[h] = parents
    let mut levels = vec![(leaves.to_vec(), want.to_vec())];
    while levels.last().unwrap().0.len() > 1 {
        let (l, w) = levels.last().unwrap();
        let mut nl = vec![];
        let mut nw = vec![];
        for i in (0..l.len()).step_by(2) {
            let r = if i + 1 < l.len() { l[i + 1] } else { l[i] };
            nl.push(dsha(&[&l[i][..], &r[..]].concat()));
            nw.push(w[i] || (i + 1 < l.len() && w[i + 1]));
        }
        levels.push((nl, nw));
    }
    let mut bits = vec![];
    let mut hashes = vec![];
    fn go(levels: &[(Vec<[u8; 32]>, Vec<bool>)], h: usize, i: usize, bits: &mut Vec<bool>, hashes: &mut Vec<[u8; 32]>) {
        let m = levels[h].1[i];
        bits.push(m);
        if h == 0 || !m {
            hashes.push(levels[h].0[i]);
        } else {
            go(levels, h - 1, 2 * i, bits, hashes);
            if 2 * i + 1 < levels[h - 1].0.len() {
                go(levels, h - 1, 2 * i + 1, bits, hashes);
            }
        }
    }
    go(&levels, levels.len() - 1, 0, &mut bits, &mut hashes);
    (bits, hashes)
}

pub fn proof_bytes(header: &[u8], count: u32, bits: &[bool], hashes: &[[u8; 32]]) -> Vec<u8> {
    let mut o = header.to_vec();
    o.extend(count.to_le_bytes());
    o.extend(varint(hashes.len() as u64));
    for h in hashes {
        o.extend(h);
    }
    let mut fb = vec![0u8; (bits.len() + 7) / 8];
    for (i, b) in bits.iter().enumerate() {
        if *b {
            fb[i / 8] |= 1 << (i % 8);
        }
    }
    o.extend(varint(fb.len() as u64));
    o.extend(fb);
    o
}
