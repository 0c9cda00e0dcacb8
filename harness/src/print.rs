//! Debug printing: P24.

use crate::env::*;
use crate::model::*;
use core::fmt::{self, Write};
use treena::dynamic::*;

/// Data whose text depends on `V`.
///
/// 0: one line. 1: of odd numbers two lines, in one piece. 2: of odd numbers two lines, in pieces.
/// 3: of odd numbers three lines, the second one empty. 4: of odd numbers two lines, the first
/// one empty, and a line feed at the end.
pub struct Text<const V: u8>(u8);

impl<const V: u8> Num for Text<V> {
    #[inline(always)]
    fn of(v: u8) -> Self {
        Text(v)
    }
    #[inline(always)]
    fn num(&self) -> u8 {
        self.0
    }
}

const UPPER: &str = "ABCDEFGHIJKLMNOP";
const LOWER: &str = "abcdefghijklmnop";
const BOTH: [&str; 16] = ["A
a", "B
b", "C
c", "D
d", "E
e", "F
f", "G
g", "H
h", "I
i", "J
j", "K
k", "L
l", "M
m", "N
n", "O
o", "P
p"];

const GAP: [&str; 16] = ["A

a", "B

b", "C

c", "D

d", "E

e", "F

f", "G

g", "H

h", "I

i", "J

j", "K

k", "L

l", "M

m", "N

n", "O

o", "P

p"];
const FEED: [&str; 16] = ["
A
", "
B
", "
C
", "
D
", "
E
", "
F
", "
G
", "
H
", "
I
", "
J
", "
K
", "
L
", "
M
", "
N
", "
O
", "
P
"];

fn lines<const V: u8>(v: u8) -> u8 {
    if V > 0 && v % 2 == 1 {
        if V == 3 {
            3
        } else {
            2
        }
    } else {
        1
    }
}

impl<const V: u8> fmt::Display for Text<V> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let i = self.0 as usize;
        if V == 0 || self.0 % 2 == 0 {
            return f.write_str(&UPPER[i..i + 1]);
        }
        if V == 1 {
            f.write_str(BOTH[i])
        } else if V == 3 {
            f.write_str(GAP[i])
        } else if V == 4 {
            f.write_str(FEED[i])
        } else {
            f.write_str(&UPPER[i..i + 1])?;
            f.write_str("\n")?;
            f.write_str(&LOWER[i..i + 1])
        }
    }
}

impl<const V: u8> fmt::Debug for Text<V> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_char(':')?;
        fmt::Display::fmt(self, f)
    }
}

/// Keeps one line of what is written, without the spaces at its end.
struct Sink<const W: usize> {
    want: u8,
    line: u8,
    col: u8,
    len: u8,
    buf: [u8; W],
}

impl<const W: usize> Write for Sink<W> {
    #[inline(never)]
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let b = s.as_bytes();
        let mut i = 0;
        while i < b.len() {
            if b[i] == b'\n' {
                self.line += 1;
                self.col = 0;
            } else {
                if self.line == self.want {
                    if (self.col as usize) < W {
                        self.buf[self.col as usize] = b[i];
                    }
                    if b[i] != b' ' {
                        self.len = self.col + 1;
                    }
                }
                self.col += 1;
            }
            i += 1;
        }
        Ok(())
    }
}

/// A line of the debug print of a subtree. `D`: `Debug` instead of `Display`.
pub fn print<const W: usize, const N: usize, const C: u8, const V: u8, const D: bool>() {
    let mut r = Rd::new();
    let (m, f, ids) = start_as::<N, N, C, Text<V>>(&mut r);
    let x = live(&mut r, &m, N);
    let want = r.upto((if V == 3 { 3 } else { 2 }) * N as u8 - 1);
    let col = r.below(W);
    let mut s = Sink::<W> { want, line: 0, col: 0, len: 0, buf: [0; W] };
    let e = match f.node(ids[x]) {
        None => {
            chk(false, "a live node is reported as dead");
            return;
        }
        Some(n) => {
            if D {
                write!(s, "{:?}", n.debug_print())
            } else {
                write!(s, "{}", f.debug_print(ids[x]))
            }
        }
    };
    chk(e.is_ok(), "the printing fails");

    let mut total = 0;
    let mut node = N;
    let mut sub = 0;
    let mut i = 0;
    while i < N {
        if m.in_sub(x, i) {
            let mut start = 0;
            let mut j = 0;
            while j < N {
                if m.in_sub(x, j) & (m.open[j] < m.open[i]) {
                    start += lines::<V>(m.data[j]);
                }
                j += 1;
            }
            let n = lines::<V>(m.data[i]);
            if (start <= want) & (want < start + n) {
                node = i;
                sub = want - start;
            }
            total += n;
        }
        i += 1;
    }
    // Of a line feed at the end of the last datum it does not matter whether it is shown.
    chk((s.line + 1 == total) | (V == 4) & (s.line == total) & (s.col == 0), "number of lines");
    if want >= total {
        return;
    }
    chk(node < N, "(oracle)");
    if node >= N {
        return;
    }
    let d = m.depth[node] - m.depth[x];
    let mut exp = [0u8; W];
    let mut a = node as u8;
    let mut l = d as usize;
    let mut i = 0;
    while i + 1 < N {
        if l > 0 {
            let q = l - 1;
            let last = at(&m.next, a) == M::<N>::NONE;
            let item = (l == d as usize) & (sub == 0);
            if q * 4 + 3 < W {
                exp[q * 4] = if item & last {
                    b'`'
                } else if last {
                    b' '
                } else {
                    b'|'
                };
                exp[q * 4 + 1] = if item { b'-' } else { b' ' };
                exp[q * 4 + 2] = exp[q * 4 + 1];
                exp[q * 4 + 3] = b' ';
            }
            a = at(&m.parent, a);
            l = q;
        }
        i += 1;
    }
    let empty = V == 3 && sub == 1 || V == 4 && sub == 0 && m.data[node] % 2 == 1;
    let upper = sub == 0 || V == 4;
    let mut p = 4 * d as usize;
    if D && sub == 0 {
        exp[p] = b':';
        p += 1;
    }
    if empty {
        while p > 0 && exp[p - 1] == b' ' {
            p -= 1;
        }
    } else {
        exp[p] = (if upper { b'A' } else { b'a' }) + m.data[node];
        p += 1;
    }
    chk(s.len as usize == p, "length of a line");
    chk((col >= p) | (s.buf[col] == exp[col]), "a character");
    cover(d >= 2, "a grandchild's line");
    cover((d >= 1) & (m.next[node] != M::<N>::NONE), "an item that is not the last");
    if V > 0 {
        cover((d >= 1) & (sub == 1), "a second line");
    }
}

/// A destination that fails at a certain call.
struct Failing {
    calls: u8,
    fail: u8,
    after: bool,
}

impl Write for Failing {
    #[inline(never)]
    fn write_str(&mut self, _: &str) -> fmt::Result {
        if self.calls == self.fail {
            self.calls = 255;
            return Err(fmt::Error);
        }
        if self.calls == 255 {
            self.after = true;
        } else {
            self.calls += 1;
        }
        Ok(())
    }
}

/// Data that cannot be shown if it is 77.
pub struct Shy(u8);
impl Num for Shy {
    #[inline(always)]
    fn of(v: u8) -> Self {
        Shy(v)
    }
    #[inline(always)]
    fn num(&self) -> u8 {
        self.0
    }
}
impl fmt::Display for Shy {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if self.0 == 77 {
            return Err(fmt::Error);
        }
        f.write_str("x")
    }
}
impl fmt::Debug for Shy {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(self, f)
    }
}

/// A failure of the destination (`HOW` 0) or of the formatting of a datum (1) ends the printing with
/// an error, and nothing more is written after it; without a failure there is no error.
pub fn fails<const N: usize, const C: u8, const D: bool, const HOW: u8>() {
    let mut r = Rd::new();
    let (m, mut f, ids) = start_as::<N, N, C, Shy>(&mut r);
    let x = live(&mut r, &m, N);
    let y = live(&mut r, &m, N);
    let bad = r.bit();
    let at = r.upto(20);
    if HOW == 1 && bad {
        match f.data_mut(ids[y]) {
            Some(d) => *d = Shy(77),
            None => return chk(false, "a live node has no data"),
        }
    }
    let mut s = Failing { calls: 0, fail: if HOW == 0 { at } else { 254 }, after: false };
    let e = if D { write!(s, "{:?}", f.debug_print(ids[x])) } else { write!(s, "{}", f.debug_print(ids[x])) };
    if HOW == 0 {
        chk(e.is_err() == (s.calls == 255), "a failure of the destination is passed on");
    } else {
        chk(e.is_err() == (bad && m.in_sub(x, y)), "a failure of the formatting of a datum is passed on");
    }
    chk(!s.after, "something is written after a failure");
    cover(e.is_err(), "a failure");
    cover(e.is_ok() && m.size(x) > 1, "no failure");
}
