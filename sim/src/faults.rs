//! What links and stores do to message bytes.
use crate::choice::Ch;
use crate::rt::{stat, St};
use crate::schema::Role;

const WORDS: &[u32] = &[
    0, 1, 2, 3, 4, 5, 7, 8, 0x7f, 0x80, 0xff, 0x100, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffc, 0xfffffffd,
    0xfffffffe, 0x40000000, 0x01000000, 0x00100000, 0x3fffffff,
];

fn set_word(b: &mut [u8], at: usize, v: u32) {
    if at + 4 <= b.len() {
        b[at..at + 4].copy_from_slice(&v.to_be_bytes());
    }
}
fn get_word(b: &[u8], at: usize) -> u32 {
    if at + 4 <= b.len() {
        u32::from_be_bytes(b[at..at + 4].try_into().unwrap())
    } else {
        0
    }
}
fn region(c: &mut Ch, n: usize) -> (usize, usize) {
    if n == 0 {
        return (0, 0);
    }
    let aligned = c.chance(2, 3);
    let (mut a, mut l) = (c.us(n), 1 + c.us(n.min(64)));
    if aligned {
        a &= !3;
        l = l.div_ceil(4) * 4;
    }
    (a, (a + l).min(n))
}

/// one fault; `other` is another message in flight
pub fn one(c: &mut Ch, b: &mut Vec<u8>, roles: &[(usize, usize, Role)], other: &[u8]) {
    let n = b.len();
    let by = |r: &[Role]| -> Vec<(usize, usize, Role)> { roles.iter().filter(|x| r.contains(&x.2) && x.0 + x.1 <= n).copied().collect() };
    let k = c.weighted(&[6, 8, 5, 4, 3, 5, 5, 3, 4, 3, 14, 8, 5, 5, 6, 6, 3]);
    match k {
        0 => {
            let t = c.us(n + 1);
            let t = n - t.min(n);
            b.truncate(t);
            stat(St::FTrunc, 1);
            tr!("  fault: cut off after {t} of {n} bytes");
        }
        1 if n > 0 => {
            let (i, bit) = (c.us(n), c.below(8));
            b[i] ^= 1 << bit;
            stat(St::FFlip, 1);
            tr!("  fault: bit {bit} of byte {i} flipped");
        }
        2 if n > 0 => {
            let i = c.us(n);
            b[i] = c.below(256) as u8;
            stat(St::FSet, 1);
            tr!("  fault: byte {i} overwritten with {:#04x}", b[i]);
        }
        3 | 4 if n > 0 => {
            let (x, y) = region(c, n);
            b[x..y].fill(if k == 3 { 0 } else { 0xff });
            stat(if k == 3 { St::FZero } else { St::FOnes }, 1);
            tr!("  fault: bytes {x}..{y} filled with {:#04x}", if k == 3 { 0 } else { 0xff });
        }
        5 if n > 0 => {
            let (x, y) = region(c, n);
            b.drain(x..y);
            stat(St::FDrop, 1);
            tr!("  fault: bytes {x}..{y} lost");
        }
        6 if n > 0 => {
            let (x, y) = region(c, n);
            let seg = b[x..y].to_vec();
            b.splice(y..y, seg);
            stat(St::FDup, 1);
            tr!("  fault: bytes {x}..{y} repeated");
        }
        7 if n > 8 => {
            let w = n / 4;
            let (i, j) = (c.us(w) * 4, c.us(w) * 4);
            for d in 0..4 {
                b.swap(i + d, j + d);
            }
            stat(St::FSwap, 1);
            tr!("  fault: words at {i} and {j} swapped");
        }
        8 if !other.is_empty() => {
            let (x, y) = region(c, other.len());
            let at = c.us(n + 1) & !3;
            let keep = c.chance(1, 2);
            let end = if keep { at } else { (at + (y - x)).min(n) };
            b.splice(at.min(n)..end.max(at.min(n)), other[x..y].iter().copied());
            stat(St::FSplice, 1);
            tr!("  fault: {} bytes of another message {} at {at}", y - x, if keep { "inserted" } else { "written over" });
        }
        9 => {
            let m = 1 + c.us(12);
            let v = *c.pick(&[0u8, 0xff, 0x5a]);
            b.extend(std::iter::repeat(v).take(m));
            stat(St::FAppend, 1);
            tr!("  fault: {m} bytes of garbage appended");
        }
        10..=12 => {
            let l = match k {
                10 => by(&[Role::Len]),
                11 => by(&[Role::Disc]),
                _ => by(&[Role::Pres, Role::Bool]),
            };
            if l.is_empty() {
                return word(c, b);
            }
            let at = c.pick(&l).0;
            let old = get_word(b, at);
            let v = match c.us(3) {
                0 => old.wrapping_add(1 + c.below(5) as u32),
                1 => old.wrapping_sub(1 + c.below(5) as u32),
                _ => *c.pick(WORDS),
            };
            set_word(b, at, v);
            stat([St::FLen, St::FDisc, St::FPres][k - 10], 1);
            tr!("  fault: {} word at {at} became {v:#x} (was {old:#x})", ["length", "discriminant", "presence"][k - 10]);
        }
        13 => {
            let l = by(&[Role::Pad]);
            if l.is_empty() {
                return word(c, b);
            }
            let p = *c.pick(&l);
            match c.us(3) {
                0 => b[p.0 + c.us(p.1)] = 1 + c.below(255) as u8,
                1 => b.truncate(p.0 + c.us(p.1)),
                _ => {
                    b.drain(p.0..p.0 + p.1);
                }
            }
            stat(St::FPad, 1);
            tr!("  fault: padding at {} damaged", p.0);
        }
        14 => {
            let l = by(&[Role::Str]);
            if l.is_empty() {
                return word(c, b);
            }
            let p = *c.pick(&l);
            let i = p.0 + c.us(p.1);
            b[i] = *c.pick(&[0x80u8, 0xc0, 0xff, 0xed, 0xf5, 0xe0, 0xc2]);
            stat(St::FUtf, 1);
            tr!("  fault: text byte {i} became {:#04x}", b[i]);
        }
        15 => {
            let l = by(&[Role::Narrow, Role::Char]);
            if l.is_empty() {
                return word(c, b);
            }
            let p = *c.pick(&l);
            let old = get_word(b, p.0);
            let v = match c.us(4) {
                0 => *c.pick(&[0x80, 0xff, 0x100, 0x8000, 0xffff, 0x10000, 0xffffff7f, 0xffff7fff, 0xffffff80, 0xffff8000, 0x7fffffff]),
                1 => old ^ (1 << c.below(32)),
                2 => *c.pick(&[0xd800, 0xdfff, 0x110000, 0x10ffff]),
                _ => old.wrapping_add(256),
            };
            set_word(b, p.0, v);
            stat(St::FNarrow, 1);
            tr!("  fault: number at {} became {v:#x} (was {old:#x})", p.0);
        }
        16 if !other.is_empty() => {
            // torn in-place write: the head of this message, the tail of what was there before
            let at = c.us(n + 1);
            let at = (n - at.min(n)) & !3;
            b.truncate(at);
            if other.len() > at {
                b.extend_from_slice(&other[at..]);
            }
            stat(St::FStale, 1);
            tr!("  fault: stale bytes after {at}");
        }
        _ => word(c, b),
    }
}
fn word(c: &mut Ch, b: &mut [u8]) {
    if b.len() < 4 {
        return;
    }
    let at = c.us(b.len() / 4) * 4;
    let v = *c.pick(WORDS);
    set_word(b, at, v);
    stat(St::FSet, 1);
    tr!("  fault: word at {at} became {v:#x}");
}
pub fn damage(c: &mut Ch, b: &[u8], roles: &[(usize, usize, Role)], other: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    for _ in 0..=c.weighted(&[10, 3, 1]) {
        one(c, &mut v, roles, other);
    }
    v
}
