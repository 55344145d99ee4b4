pub mod arith;
pub mod diff;
pub mod laws;
pub mod machine;
pub mod more;
pub mod order;
pub mod round;
pub mod text;
pub mod value;

use crate::gen::Src;
use crate::num::Num;
use crate::real::observe;
use fxd::FixedDecimal;

/// Builds an operand and reads its value; None if either fails (judged elsewhere).
pub fn operand(s: &Src) -> Option<(FixedDecimal, Num)> {
    let fd = s.build()?;
    let n = crate::real::guard(|| observe(&fd)).ok()?.ok()?;
    Some((fd, n))
}

/// Appends the decimal to buffers holding `prefix`: one without spare room, one with stale bytes behind its end, one with
/// ample room, and twice to the same one. The texts appended must all be `want`.
pub fn check_append(fd: &FixedDecimal, k: isize, prefix: &[u8], want: &str) -> Result<(), String> {
    let mut tight = prefix.to_vec();
    tight.shrink_to_fit();
    fd.append_str_buf(&mut tight, k);
    let mut stale = prefix.to_vec();
    stale.resize(prefix.len() + want.len() / 2 + 7, b'7');
    stale.truncate(prefix.len());
    fd.append_str_buf(&mut stale, k);
    let once = [prefix, want.as_bytes()].concat();
    let mut roomy = Vec::with_capacity(prefix.len() + want.len() + 200);
    roomy.extend_from_slice(prefix);
    fd.append_str_buf(&mut roomy, k);
    for b in [&tight, &stale, &roomy] {
        if *b != once {
            return Err(format!("appending {:?} (digits {}) to {:?} gives {:?}", want, k, String::from_utf8_lossy(prefix), String::from_utf8_lossy(b)));
        }
    }
    // longer buffers, with no room left, some, or just enough
    let mix = want.bytes().fold(k as u64, |h, b| (h ^ b as u64).wrapping_mul(0x0100_0000_01b3)) >> 20;
    for (i, len) in [40, 130, 300, 1100, 5000].into_iter().enumerate() {
        let room = match (mix >> (3 * i)) & 7 {
            0 | 1 => 0,
            2 | 3 => want.len(),
            4 => want.len() - 1,
            5 => 1,
            _ => (mix % 97) as usize,
        };
        let mut long = Vec::with_capacity(len + room);
        long.extend((0..len).map(|p| b'a' + (p % 23) as u8));
        fd.append_str_buf(&mut long, k);
        if long.len() != len + want.len() || long[len..] != *want.as_bytes() || long[..len].iter().enumerate().any(|(p, b)| *b != b'a' + (p % 23) as u8) {
            return Err(format!("appending {:?} (digits {}) to a buffer of {} bytes with room for {} gives {:?}", want, k, len, room, String::from_utf8_lossy(long.get(len..).unwrap_or_default())));
        }
    }
    tight.push(b' ');
    fd.append_str_buf(&mut tight, k);
    if tight != [&once[..], b" ", want.as_bytes()].concat() {
        return Err(format!("appending {:?} (digits {}) twice to {:?} gives {:?}", want, k, String::from_utf8_lossy(prefix), String::from_utf8_lossy(&tight)));
    }
    Ok(())
}

/// positional digits of the canonical text
pub fn text_digits(n: &Num) -> usize {
    n.int_digits().max(1) + n.scale
}
