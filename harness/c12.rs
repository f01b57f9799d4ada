//! C12: tags.
use vx::*;
use src::*;
use claxon::metadata::{Tags, GetTag};

fn text(src: u32, at: u64, n: u64, hi: u8) -> String {
    let mut v = Vec::with_capacity(n as usize);
    let mut i = 0;
    while i < n {
        let x = vx_byte(src, at + i);
        vx_assume(x <= hi);
        v.push(x);
        i += 1;
    }
    unsafe { String::from_utf8_unchecked(v) }
}
struct Comment { at: u64, name: u64, value: u64 }
/// A comment NAME=value with this much of each.
fn comment(at: u64, name: u64, value: u64) -> ((String, usize), Comment) {
    let mut i = 0;
    while i < name {
        vx_assume(b(at + i) != b'=' && b(at + i) >= 0x20 && b(at + i) <= 0x7d);
        i += 1;
    }
    vx_assume(b(at + name) == b'=');
    ((text(0, at, name + 1 + value, 0x7f), name as usize), Comment { at: at, name: name, value: value })
}
fn is(x: &str, at: u64, n: u64) -> bool {
    let x = x.as_bytes();
    if x.len() as u64 != n { return false }
    let mut i = 0;
    let mut same = true;
    while i < n {
        same = same & (x[i as usize] == b(at + i));
        i += 1;
    }
    same
}
fn comments(n: u64, names: &[u64], values: &[u64]) -> (Vec<(String, usize)>, Vec<Comment>) {
    let mut c = Vec::new();
    let mut s = Vec::new();
    let mut i = 0;
    while i < n {
        let (x, y) = comment(100 * i, names[i as usize], values[i as usize]);
        c.push(x);
        s.push(y);
        i += 1;
    }
    (c, s)
}
fn tags(c: &[(String, usize)], s: &[Comment]) {
    let mut it = Tags::new(c);
    let n = s.len();
    let mut i = 0;
    while i < n {
        vx_check(it.size_hint() == (n - i, Some(n - i)) && it.len() == n - i, "the size hint is exact");
        match it.next() {
            Some((k, v)) => {
                vx_check(is(k, s[i].at, s[i].name), "tags have their comment's name, in order");
                vx_check(is(v, s[i].at + s[i].name + 1, s[i].value), "tags have their comment's value, in order");
            }
            None => vx_fail("every comment is iterated"),
        }
        i += 1;
    }
    vx_check(it.size_hint() == (0, Some(0)), "the size hint is exact");
    vx_check(it.next().is_none() && it.next().is_none(), "nothing but the comments is iterated");
}
fn fold(x: u8) -> u8 {
    if vx_part(x >= b'a' && x <= b'z') { x }
    else if vx_part(x >= b'A' && x <= b'Z') { x + 32 }
    else { x }
}
/// Whether the comment's name is the needle.
fn named(s: &Comment, len: u64) -> bool {
    if s.name != len { return false }
    let mut i = 0;
    while i < len {
        if vx_part(fold(b(s.at + i)) != fold(vx_byte(1, i))) { return false }
        i += 1;
    }
    true
}
fn lookup(c: &[(String, usize)], s: &[Comment], needle: &str) {
    vx_config("case", true);
    let mut it = GetTag::new(c, needle);
    let mut i = 0;
    while i < s.len() {
        if named(&s[i], needle.len() as u64) {
            let h = it.size_hint();
            vx_check(h.0 <= s.len() - i && h.1.map_or(true, |x| x >= 1), "the size hint holds");
            match it.next() {
                Some(v) => vx_check(is(v, s[i].at + s[i].name + 1, s[i].value), "the values of the comments of that name are yielded in order"),
                None => vx_fail("every comment of that name is found"),
            }
        }
        i += 1;
    }
    vx_check(it.size_hint().0 == 0, "the size hint holds");
    vx_check(it.next().is_none() && it.next().is_none(), "only comments of that name are found");
}
fn pick(l: &'static str, lo: u64, hi: u64) -> u64 { vx_split(vx_any_u64(l, lo, hi), lo, hi) }
pub fn root_c12_tags() {
    let n = pick("comments", 0, 4);
    let names = [pick("name 0", 0, 2), 1, 4, 2];
    let values = [pick("value 0", 0, 3), 0, 2, 1];
    let (c, s) = comments(n, &names, &values);
    tags(&c, &s);
}
/// Names of up to two bytes, needles of up to three.
fn c12(n: u64) {
    let mut names = [0; 4];
    let mut values = [0; 4];
    let mut i = 0;
    while i < n {
        names[i as usize] = pick("name", 0, 2);
        values[i as usize] = i;
        i += 1;
    }
    let (c, s) = comments(n, &names, &values);
    let needle = text(1, 0, pick("needle", 0, 3), 0x7f);
    lookup(&c, &s, &needle);
}
pub fn root_c12_lookup0() { c12(0) }
pub fn root_c12_lookup1() { c12(1) }
pub fn root_c12_lookup2() { c12(2) }
/// Four comments.
pub fn root_c12_lookup3() {
    let (c, s) = comments(4, &[1, 1, 1, 1], &[1, 0, 2, 1]);
    let needle = text(1, 0, 1, 0x7f);
    lookup(&c, &s, &needle);
}
fn c12_long(len: u64) {
    let (c, s) = comments(2, &[len, len], &[0, 40]);
    let needle = text(1, 0, len, 0x7f);
    // they agree but for one place
    let at = pick("place", 0, len - 1);
    let mut i = 0;
    while i < len {
        if i != at {
            let x = b'g' + (i % 20) as u8;
            vx_assume(b(i) == x - 32 && b(100 + i) == x && vx_byte(1, i) == if i % 2 == 0 { x } else { x - 32 });
        }
        i += 1;
    }
    lookup(&c, &s, &needle);
}
pub fn root_c12_long0() { c12_long(6) }
pub fn root_c12_long1() { c12_long(17) }
pub fn root_c12_long2() { c12_long(33) }
fn recase(s: &str, up: bool) -> String {
    let s = s.as_bytes();
    let mut v = Vec::with_capacity(2 * s.len() + 8);
    let mut i = 0;
    while i < s.len() {
        let x = s[i];
        if up && x >= b'a' && x <= b'z' { v.push(x - 32) }
        else if !up && x >= b'A' && x <= b'Z' { v.push(x + 32) }
        else if !up && x == 0xe2 && i + 2 < s.len() && s[i + 1] == 0x84 && s[i + 2] == 0xaa { v.push(b'k'); i += 2 }
        else if up && x == 0xc5 && i + 1 < s.len() && s[i + 1] == 0xbf { v.push(b'S'); i += 1 }
        else { v.push(x) }
        i += 1;
    }
    unsafe { String::from_utf8_unchecked(v) }
}
/// Stand for the conversions of str, for ASCII and the two signs which become ASCII letters.
pub fn stub_to_lowercase(s: &str) -> String { recase(s, false) }
pub fn stub_to_uppercase(s: &str) -> String { recase(s, true) }
/// Only ASCII letters have a case here: KELVIN SIGN is no k, LATIN SMALL LETTER LONG S no s.
pub fn root_c12_unicode() {
    let (c, s) = comments(2, &[1, 1], &[1, 0]);
    vx_config("case", true);
    let k = pick("sign", 0, 3);
    let needle = match k { 0 => "\u{212a}", 1 => "\u{17f}", 2 => "K\u{212a}", _ => "\u{17f}s" };
    let mut it = GetTag::new(&c, needle);
    vx_check(it.next().is_none(), "only comments of that name are found");
}
