//! The contracts on std that the proofs take for granted (specs/ghost), tried on the real std: each one in executable
//! form, over every character, every short text over a small alphabet, and random longer ones.  A trial is no proof of them.
use crate::gen::Rng;
use std::borrow::Cow;
use std::cmp::Ordering;
use std::collections::BTreeMap;

#[derive(Default)]
pub struct Tried {
    pub n: BTreeMap<&'static str, u64>,
    pub fails: Vec<String>,
}

impl Tried {
    fn eq<T: PartialEq + std::fmt::Debug>(&mut self, what: &'static str, on: &dyn Fn() -> String, want: T, got: T) {
        *self.n.entry(what).or_default() += 1;
        if want != got && self.fails.len() < 5 {
            self.fails.push(format!("{what} on {}: the contract says {want:?}, std says {got:?}", on()));
        }
    }
    fn holds(&mut self, what: &'static str, on: &dyn Fn() -> String, ok: bool) {
        self.eq(what, on, true, ok);
    }
}

// specs/ghost/ustr.rs is_ws
fn is_ws(c: char) -> bool {
    matches!(c as u32, 9..=13 | 32 | 0x85 | 0xA0 | 0x1680 | 0x2000..=0x200A | 0x2028 | 0x2029 | 0x202F | 0x205F | 0x3000)
}

fn within(a: char, c: char, b: char) -> bool {
    a <= c && c <= b
}

fn chars_(t: &mut Tried) {
    let lower = |c: char| if within('A', c, 'Z') { (c as u8 + 32) as char } else { c };
    let upper = |c: char| if within('a', c, 'z') { (c as u8 - 32) as char } else { c };
    for u in 0..=0x10_FFFFu32 {
        let Some(c) = char::from_u32(u) else { continue };
        let on = || format!("{c:?}");
        let (lo, up, di) = (within('a', c, 'z'), within('A', c, 'Z'), within('0', c, '9'));
        t.eq("char::is_whitespace", &on, is_ws(c), c.is_whitespace());
        t.eq("char::is_ascii_lowercase", &on, lo, c.is_ascii_lowercase());
        t.eq("char::is_ascii_uppercase", &on, up, c.is_ascii_uppercase());
        t.eq("char::is_ascii_digit", &on, di, c.is_ascii_digit());
        t.eq("char::is_ascii", &on, u <= 127, c.is_ascii());
        t.eq("char::is_ascii_alphabetic", &on, lo || up, c.is_ascii_alphabetic());
        t.eq("char::is_ascii_alphanumeric", &on, lo || up || di, c.is_ascii_alphanumeric());
        t.eq("char::is_ascii_whitespace", &on, matches!(u, 32 | 9 | 10 | 12 | 13), c.is_ascii_whitespace());
        t.eq("char::is_ascii_punctuation", &on, within('!', c, '/') || within(':', c, '@') || within('[', c, '`') || within('{', c, '~'), c.is_ascii_punctuation());
        t.eq("char::is_ascii_graphic", &on, within('!', c, '~'), c.is_ascii_graphic());
        t.eq("char::is_ascii_hexdigit", &on, di || within('a', c, 'f') || within('A', c, 'F'), c.is_ascii_hexdigit());
        t.eq("char::is_ascii_control", &on, u <= 31 || u == 127, c.is_ascii_control());
        t.eq("char::is_control", &on, u <= 31 || (127..=159).contains(&u), c.is_control());
        t.eq("char::to_ascii_lowercase", &on, lower(c), c.to_ascii_lowercase());
        t.eq("char::to_ascii_uppercase", &on, upper(c), c.to_ascii_uppercase());
        t.eq("char::len_utf8", &on, if u < 0x80 { 1 } else if u < 0x800 { 2 } else if u < 0x10000 { 3 } else { 4 }, c.len_utf8());
        if u <= 127 {
            t.eq("char::is_alphabetic (ASCII)", &on, lo || up, c.is_alphabetic());
            t.eq("char::is_alphanumeric (ASCII)", &on, lo || up || di, c.is_alphanumeric());
            t.eq("char::is_numeric (ASCII)", &on, di, c.is_numeric());
            t.eq("char::is_lowercase (ASCII)", &on, lo, c.is_lowercase());
            t.eq("char::is_uppercase (ASCII)", &on, up, c.is_uppercase());
            for w in 0..=0x250u32 {
                let d = char::from_u32(w).unwrap();
                t.eq("char::eq_ignore_ascii_case", &|| format!("{c:?} {d:?}"), lower(c) == lower(d), c.eq_ignore_ascii_case(&d));
            }
        }
    }
    for b in 0..=255u8 {
        let on = || b.to_string();
        t.eq("u8::is_ascii_*", &on, (48..=57).contains(&b), b.is_ascii_digit());
        t.eq("u8::is_ascii_*", &on, (97..=122).contains(&b), b.is_ascii_lowercase());
        t.eq("u8::is_ascii_*", &on, (65..=90).contains(&b), b.is_ascii_uppercase());
        t.eq("u8::is_ascii_*", &on, (97..=122).contains(&b) || (65..=90).contains(&b), b.is_ascii_alphabetic());
        t.eq("u8::is_ascii_*", &on, (97..=122).contains(&b) || (65..=90).contains(&b) || (48..=57).contains(&b), b.is_ascii_alphanumeric());
        t.eq("u8::is_ascii_*", &on, matches!(b, 32 | 9 | 10 | 12 | 13), b.is_ascii_whitespace());
        t.eq("u8::is_ascii_*", &on, b < 128, b.is_ascii());
    }
}

fn blen(s: &[char]) -> usize {
    s.iter().map(|c| c.len_utf8()).sum()
}
fn st(s: &[char]) -> String {
    s.iter().collect()
}

/// Everything about one text and one character, and one text as a pattern.
fn strings(t: &mut Tried, v: &[char], p: char, q: &[char]) {
    let (s, qs) = (st(v), st(q));
    let on = || format!("{s:?} with {p:?} and {qs:?}");
    let n = v.len();
    let preds: [&dyn Fn(char) -> bool; 3] = [&|c| c == p, &|c| c != p && is_ws(c), &|c| c.is_ascii_lowercase()];
    for (k, f) in preds.iter().enumerate() {
        let first = (0..n).find(|i| f(v[*i]));
        let last = (0..n).rev().find(|i| f(v[*i]));
        t.eq("str::find (closure)", &on, first.map(|i| blen(&v[..i])), s.find(*f));
        t.eq("str::rfind (closure)", &on, last.map(|i| blen(&v[..i])), s.rfind(*f));
        if k == 0 {
            t.eq("str::find (char)", &on, first.map(|i| blen(&v[..i])), s.find(p));
            t.eq("str::rfind (char)", &on, last.map(|i| blen(&v[..i])), s.rfind(p));
        }
    }
    t.eq("str::starts_with (char)", &on, n > 0 && v[0] == p, s.starts_with(p));
    t.eq("str::ends_with (char)", &on, n > 0 && v[n - 1] == p, s.ends_with(p));
    t.eq("str::strip_prefix (char)", &on, (n > 0 && v[0] == p).then(|| st(&v[1..])), s.strip_prefix(p).map(str::to_owned));
    t.eq("str::strip_suffix (char)", &on, (n > 0 && v[n - 1] == p).then(|| st(&v[..n - 1])), s.strip_suffix(p).map(str::to_owned));
    let (pre, suf) = (n >= q.len() && v[..q.len()] == *q, n >= q.len() && v[n - q.len()..] == *q);
    t.eq("str::starts_with (str)", &on, pre, s.starts_with(&*qs));
    t.eq("str::ends_with (str)", &on, suf, s.ends_with(&*qs));
    t.eq("str::strip_prefix (str)", &on, pre.then(|| st(&v[q.len()..])), s.strip_prefix(&*qs).map(str::to_owned));
    t.eq("str::strip_suffix (str)", &on, suf.then(|| st(&v[..n - q.len()])), s.strip_suffix(&*qs).map(str::to_owned));
    let (mut a, mut b) = (0, n);
    while a < n && v[a] == p {
        a += 1;
    }
    while b > 0 && v[b - 1] == p {
        b -= 1;
    }
    t.eq("str::trim_start_matches (char)", &on, st(&v[a..]), s.trim_start_matches(p).to_owned());
    t.eq("str::trim_end_matches (char)", &on, st(&v[..b]), s.trim_end_matches(p).to_owned());
    t.eq("str::contains (char)", &on, v.contains(&p), s.contains(p));
    match s.split_once(p) {
        None => t.holds("str::split_once (char)", &on, !v.contains(&p)),
        Some((a, b)) => t.holds("str::split_once (char)", &on, format!("{a}{p}{b}") == s && !a.contains(p)),
    }
    match s.split_once(&*qs) {
        None => t.holds("str::split_once (str)", &on, !s.contains(&*qs)),
        Some((a, b)) => {
            let mut head = a.to_owned() + &qs;
            head.pop();
            t.holds("str::split_once (str)", &on, format!("{a}{qs}{b}") == s && (q.is_empty() || !head.contains(&*qs)));
        }
    }
    let (mut a, mut b) = (0, n);
    while a < n && is_ws(v[a]) {
        a += 1;
    }
    while b > 0 && is_ws(v[b - 1]) {
        b -= 1;
    }
    t.eq("str::trim_start", &on, st(&v[a..]), s.trim_start().to_owned());
    t.eq("str::trim_end", &on, st(&v[..b]), s.trim_end().to_owned());
    t.eq("str::trim", &on, if a < b { st(&v[a..b]) } else { String::new() }, s.trim().to_owned());
    // slicing: at the places between characters, and nowhere else
    let at: Vec<usize> = (0..=n).map(|i| blen(&v[..i])).collect();
    for i in 0..=blen(v) + 1 {
        if n > 6 && i % 7 != 3 {
            continue;
        }
        t.eq("str::is_char_boundary", &on, at.contains(&i), s.is_char_boundary(i));
        for j in 0..=blen(v) + 1 {
            let want = match (at.iter().position(|x| *x == i), at.iter().position(|x| *x == j)) {
                (Some(x), Some(y)) if x <= y => Some(st(&v[x..y])),
                _ => None,
            };
            t.eq("str::get (the ranges that indexing takes)", &on, want, s.get(i..j).map(str::to_owned));
        }
    }
    for w in at.windows(2) {
        t.eq("str[..]", &on, s[w[0]..w[1]].to_owned(), s[w[0]..=w[1] - 1].to_owned());
    }
    t.eq("String::len", &on, blen(v), s.len());
    t.eq("Chars::count", &on, n, s.chars().count());
    t.eq("Chars::last", &on, v.last().copied(), s.chars().last());
    t.eq("Chars::next", &on, v.first().copied(), s.chars().next());
    let low = |v: &[char]| v.iter().map(|c| if within('A', *c, 'Z') { (*c as u8 + 32) as char } else { *c }).collect::<String>();
    let upp = |v: &[char]| v.iter().map(|c| if within('a', *c, 'z') { (*c as u8 - 32) as char } else { *c }).collect::<String>();
    t.eq("str::to_ascii_lowercase", &on, low(v), s.to_ascii_lowercase());
    t.eq("str::to_ascii_uppercase", &on, upp(v), s.to_ascii_uppercase());
    t.eq("str::eq_ignore_ascii_case", &on, low(v) == low(q), s.eq_ignore_ascii_case(&qs));
    if s.is_ascii() {
        t.eq("str::to_lowercase (ASCII)", &on, low(v), s.to_lowercase());
        t.eq("str::to_uppercase (ASCII)", &on, upp(v), s.to_uppercase());
    }
    let mut rep = String::new();
    for k in 0..3usize {
        t.eq("str::repeat", &on, rep.clone(), s.repeat(k));
        rep += &s;
    }
    // the order of texts is that of their characters, and that of their bytes
    t.eq("str::cmp", &on, s.as_bytes().cmp(qs.as_bytes()), s.as_str().cmp(qs.as_str()));
    t.eq("str::eq", &on, *v == *q, s == qs);
    t.eq("str::eq (String)", &on, *v == *q, *s.as_str() == qs);
    let (own, bor): (Cow<'_, str>, Cow<'_, str>) = (Cow::from(s.clone()), Cow::from(&*s));
    t.holds("Cow<str>: From, Deref, AsRef, Into", &on, *own == *s && *bor == *s && AsRef::<str>::as_ref(&own) == s && Into::<Cow<'_, str>>::into(s.clone()) == own);
    t.eq("Cow<str>::eq", &on, *v == *q, own == *qs.as_str());
    t.eq("Cow<str>::eq", &on, *v == *q, bor == qs.as_str());
    let order = s.as_bytes().cmp(qs.as_bytes());
    t.eq("str::partial_cmp", &on, Some(order), s.as_str().partial_cmp(qs.as_str()));
    for a in [&own, &bor] {
        let copy = a.clone();
        t.holds("Cow<str>::clone", &on, copy.chars().eq(v.iter().copied()));
        for b in [Cow::from(qs.clone()), Cow::from(&*qs)] {
            t.eq("Cow<str>::eq (Cow)", &on, *v == *q, *a == b);
            t.eq("Cow<str>::cmp", &on, order, a.cmp(&b));
            t.eq("Cow<str>::partial_cmp", &on, Some(order), a.partial_cmp(&b));
        }
    }
    number(t, &s);
}

fn number(t: &mut Tried, s: &str) {
    let body = s.strip_prefix('+').unwrap_or(s);
    let digits = !body.is_empty() && body.chars().all(|c| within('0', c, '9'));
    let val = body.chars().filter(|_| digits).fold(0u128, |a, c| a.saturating_mul(10).saturating_add(u128::from(c as u32 - 48)));
    let on = || format!("{s:?}");
    t.eq("u16::from_str", &on, (digits && val <= 65535).then_some(val), s.parse::<u16>().ok().map(u128::from));
    t.eq("u8::from_str", &on, (digits && val <= 255).then_some(val), s.parse::<u8>().ok().map(u128::from));
}

fn texts(t: &mut Tried, seed: u64, secs: f64) {
    let t0 = std::time::Instant::now();
    let abc = ['a', 'A', '+', '0', '9', ' ', '"', 'é', '\u{2028}', '日', '😀'];
    for len in 0..=4u32 {
        for k in 0..abc.len().pow(len) {
            let v: Vec<char> = (0..len).map(|i| abc[k / abc.len().pow(i) % abc.len()]).collect();
            let q: Vec<char> = if k % 3 == 0 { v[v.len() / 2..].to_vec() } else if k % 3 == 1 { v[..v.len() / 2].to_vec() } else { vec![abc[k % 11], abc[k / 7 % 11]] };
            strings(t, &v, abc[k * 7 % 11], &q);
        }
    }
    let digits: Vec<char> = "0123456789+- ".chars().collect();
    for len in 0..=5u32 {
        for k in 0..digits.len().pow(len) {
            number(t, &(0..len).map(|i| digits[k / digits.len().pow(i) % digits.len()]).collect::<String>());
        }
    }
    let mut r = Rng::new(seed);
    while t0.elapsed().as_secs_f64() < secs {
        for _ in 0..200 {
            let n = r.below(40);
            let some = |r: &mut Rng| loop {
                let u = [0x80, 0x800, 0x3100, 0x11_0000][r.below(4)];
                if let Some(c) = char::from_u32(r.below(u) as u32) {
                    return if r.chance(1, 3) { *r.pick(&abc) } else { c };
                }
            };
            let v: Vec<char> = (0..n).map(|_| some(&mut r)).collect();
            let p = if n > 0 && r.chance(1, 2) { v[r.below(n)] } else { some(&mut r) };
            let q = if r.chance(1, 2) { v[..r.below(n + 1)].to_vec() } else { v[r.below(n + 1)..].to_vec() };
            strings(t, &v, p, &q);
        }
        let d: String = (0..r.below(30)).map(|_| *r.pick(&digits)).collect();
        number(t, &d);
    }
}

fn decimal(n: usize) -> String {
    let d = ["0", "1", "2", "3", "4", "5", "6", "7", "8", "9"][n % 10];
    if n < 10 { d.to_owned() } else { decimal(n / 10) + d }
}

/// A writer that takes so many bytes.
struct Room(String, usize);
impl std::fmt::Write for Room {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.0.len() + s.len() > self.1 {
            return Err(std::fmt::Error);
        }
        self.0.push_str(s);
        Ok(())
    }
}

fn printing(t: &mut Tried) {
    use std::fmt::Write;
    for n in 0..=65535u16 {
        t.eq("Display for u16", &|| n.to_string(), decimal(n.into()), format!("{n}"));
        t.eq("Display for usize", &|| n.to_string(), decimal(usize::from(n) * 7_919_777), format!("{}", usize::from(n) * 7_919_777));
    }
    for n in 0..=255u8 {
        t.eq("Display for u8", &|| n.to_string(), decimal(n.into()), format!("{n}"));
    }
    struct Two<'a>(&'a str, usize);
    impl std::fmt::Display for Two<'_> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "<{}, {}>", self.0, self.1)?;
            f.write_str(self.0)
        }
    }
    for s in ["", "a", "é\n", "{}", "日本語 text"] {
        for n in [0usize, 7, 10, 4711, usize::MAX] {
            let whole = "<".to_owned() + s + ", " + &decimal(n) + ">" + s;
            for room in 0..=whole.len() + 1 {
                let mut w = Room(String::new(), room);
                let r = write!(w, "{}", Two(s, n));
                t.holds("write!: its pieces in order, an error if the writer fails", &|| format!("{s:?} {n} {room}"), match r {
                    Ok(()) => w.0 == whole,
                    Err(_) => whole.starts_with(&w.0) && room < whole.len(),
                });
            }
        }
    }
}

fn lists(t: &mut Tried, seed: u64) {
    let mut r = Rng::new(seed);
    for k in 0..60_000usize {
        let n = if k % 50 == 0 { r.below(300) } else { r.below(9) };
        let v: Vec<u16> = (0..n).map(|_| r.below(if k % 2 == 0 { 6 } else { 2000 }) as u16).collect();
        let x = r.below(6) as u16;
        let on = || format!("{v:?} {x}");
        let (mut a, mut b) = (v.clone(), v.clone());
        a.sort();
        b.sort_unstable();
        let count = |v: &[u16]| {
            let mut m = BTreeMap::new();
            for x in v {
                *m.entry(*x).or_insert(0) += 1;
            }
            m
        };
        t.holds("[T]::sort", &on, a.windows(2).all(|w| w[0] <= w[1]) && count(&a) == count(&v) && a.len() == v.len());
        t.holds("[T]::sort_unstable", &on, b.windows(2).all(|w| w[0] <= w[1]) && count(&b) == count(&v) && b.len() == v.len());
        t.eq("[T]::contains", &on, v.iter().any(|y| *y == x), v.contains(&x));
        for (w, ordered) in [(&a, true), (&v, v.windows(2).all(|w| w[0] <= w[1]))] {
            let ok = match w.binary_search_by(|y| y.cmp(&x)) {
                Ok(i) => w.get(i) == Some(&x),
                Err(i) => i <= w.len() && (!ordered || (i == 0 || w[i - 1] < x) && (i == w.len() || w[i] > x)),
            };
            t.holds("[T]::binary_search_by", &on, ok);
        }
        let mut rev = v.clone();
        rev.reverse();
        t.holds("[T]::reverse", &on, (0..n).all(|i| rev[i] == v[n - 1 - i]));
        t.eq("[T]::split_last", &on, (n > 0).then(|| (v[n - 1], v[..n - 1].to_vec())), v.split_last().map(|(x, t)| (*x, t.to_vec())));
        if n > 0 {
            let (i, j) = (r.below(n), r.below(n));
            let mut w = v.clone();
            w.swap(i, j);
            t.holds("[T]::swap", &on, (0..n).all(|k| w[k] == v[if k == i { j } else if k == j { i } else { k }]));
        }
        let c: Cow<'_, [u16]> = Cow::from(v.clone());
        let d: Cow<'_, [u16]> = Cow::from(&*v);
        t.holds("Cow<[T]>: From, Deref, AsRef", &on, *c == *v && *d == *v && AsRef::<[u16]>::as_ref(&c) == v);
        let mut other = v.clone();
        match r.below(4) {
            0 if n > 0 => other[r.below(n)] ^= 1,
            1 => other.truncate(n / 2),
            2 => other.push(x),
            _ => {}
        }
        let same = v.len() == other.len() && (0..n).all(|i| v[i] == other[i]);
        t.eq("[T]::eq", &on, same, v[..] == other[..]);
        t.eq("Cow<[T]>::eq", &on, same, c == Cow::from(&*other));
        t.eq("Cow<[T]>::eq", &on, same, d == Cow::<[u16]>::from(other.clone()));
        t.holds("Cow<[T]>::clone", &on, *c.clone() == *v && *d.clone() == *v);
        let mut asked = vec![];
        let got: Vec<u16> = v.iter().filter_map(|y| { asked.push(*y); (*y % 3 != 0).then_some(*y + 1) }).collect();
        let mut want = vec![];
        for y in &v {
            if y % 3 != 0 {
                want.push(y + 1);
            }
        }
        t.holds("Iterator::filter_map", &on, got == want && asked == v);
        let o = [None, Some(x)][k % 2];
        let p = [None, Some(x + 1)][k / 2 % 2];
        let on = || format!("{o:?} {p:?}");
        let mut q = o;
        t.holds("Option", &on, o.or(p) == if o.is_some() { o } else { p }
            && o.xor(p) == match (o, p) { (Some(x), None) | (None, Some(x)) => Some(x), _ => None }
            && o.and(p) == if o.is_some() { p } else { None }
            && o.zip(p) == match (o, p) { (Some(x), Some(y)) => Some((x, y)), _ => None }
            && o.as_ref().copied() == o && o.is_some_and(|y| y == 3) == (o == Some(3))
            && q.replace(9) == o && q == Some(9)
            && (o.is_some()).then_some(x) == o);
        let e: Result<u16, u8> = if k % 3 == 0 { Err(1) } else { Ok(x) };
        let g: Result<u16, u8> = if k % 5 == 0 { Err(2) } else { Ok(x + 1) };
        t.holds("Result", &|| format!("{e:?} {g:?}"), e.unwrap_or(7) == match e { Ok(x) => x, Err(_) => 7 }
            && e.and(g) == match e { Ok(_) => g, Err(e) => Err(e) }
            && e.or(g) == match e { Ok(x) => Ok(x), Err(_) => g });
        for z in [None, Some(e)] {
            t.eq("Option::transpose", &|| format!("{z:?}"), match z { None => Ok(None), Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e) }, z.transpose());
        }
        let rg = r.below(99)..r.below(99);
        t.holds("Range::clone", &|| format!("{rg:?}"), rg.clone().start == rg.start && rg.clone().end == rg.end);
        let mut m = x;
        t.holds("mem::replace", &|| x.to_string(), std::mem::replace(&mut m, 77) == x && m == 77);
        let (y, z) = (r.next() as u16, r.next() as u16);
        t.eq("abs_diff", &|| format!("{y} {z}"), if y <= z { z - y } else { y - z }, y.abs_diff(z));
        t.holds("max, min", &|| format!("{y} {z}"), y.max(z) == if y > z { y } else { z } && y.min(z) == if y > z { z } else { y });
    }
    for n in 0..=65535u16 {
        let mut m = n;
        while m > 1 && m % 2 == 0 {
            m /= 2;
        }
        t.eq("is_power_of_two", &|| n.to_string(), m == 1, n.is_power_of_two());
    }
    use Ordering::{Equal, Greater, Less};
    for o in [Less, Equal, Greater] {
        for p in [Less, Equal, Greater] {
            t.eq("Ordering", &|| format!("{o:?} {p:?}"), if o == Equal { p } else { o }, o.then(p));
        }
        let back = match o { Less => Greater, Equal => Equal, Greater => Less };
        t.eq("Ordering", &|| format!("{o:?}"), (back, o == Equal, o != Equal, o == Less, o == Greater, o != Greater, o != Less),
            (o.reverse(), o.is_eq(), o.is_ne(), o.is_lt(), o.is_gt(), o.is_le(), o.is_ge()));
    }
    for (a, b) in [(false, false), (false, true), (true, false), (true, true)] {
        t.eq("bool", &|| format!("{a} {b}"), (a && b, a || b, if a { 1usize } else { 0 }), (a & b, a | b, usize::from(a)));
    }
}

fn lexicon(t: &mut Tried) {
    use cfg_expr::target_lexicon as tl;
    t.eq("PointerWidth::bits", &|| String::new(), (16, 32, 64), (tl::PointerWidth::U16.bits(), tl::PointerWidth::U32.bits(), tl::PointerWidth::U64.bits()));
    for a in ["x86_64", "aarch64", "i686", "riscv64gc", "mips64", "wasm32", "avr", "foo"] {
        for e in ["gnux32", "gnu_ilp32"] {
            if let Ok(x) = format!("{a}-unknown-linux-{e}").parse::<tl::Triple>() {
                t.eq("Triple::pointer_width (x32, ilp32)", &|| x.to_string(), Ok(tl::PointerWidth::U32), x.pointer_width());
            }
        }
    }
}

pub fn run(seed: u64, secs: f64) -> Tried {
    let mut t = Tried::default();
    chars_(&mut t);
    printing(&mut t);
    lists(&mut t, seed);
    lexicon(&mut t);
    texts(&mut t, seed, secs);
    t
}
