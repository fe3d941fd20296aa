//! Shared input generators.
use crate::Rng;
pub const WORDS: &[&str] = &["", "a", "b", "ab", "abc", "x", "www", "é", "日本", "A", "a.b", "-", "0", "12", "%41", "utm_source", "=", "&", "a b", "\u{301}", "🙂", "ß", "İ"];
pub fn word(r: &mut Rng) -> String { r.pick(WORDS).to_string() }
/// Arbitrary short text over an alphabet that mixes ASCII, separators and multi-byte characters.
pub fn text(r: &mut Rng, max: usize) -> String {
    let al: &[char] = &['a', 'b', 'c', 'a', 'b', '.', '/', '-', 'A', '0', ' ', '=', '&', 'é', 'ß', '日', '🙂', '\u{301}', '%', '"', '\\', 'w', 'İ'];
    let n = r.below(max + 1); (0..n).map(|_| *r.pick(al)).collect()
}
pub fn index(r: &mut Rng) -> isize {
    match r.below(12) { 0 => isize::MIN, 1 => isize::MAX, 2 => isize::MIN + 1, 3 => isize::MAX - 1, 4 => 1 << 32, _ => r.range(-7, 7) as isize }
}
pub fn opt_index(r: &mut Rng) -> Option<isize> { if r.chance(1, 4) { None } else { Some(index(r)) } }
pub const HOSTS: &[&str] = &["example.com", "www.example.com", "a.b.example.co.uk", "example.co.uk", "co.uk", "com", "com.", "example.com.", "www.example.com.", "a.example.co.uk.", "localhost", "unknowntld", "x.unknowntld", "a..com", "..com", ".com", ".", "..", "a.b..", "xn--fsqu00a.xn--0zwm56d", "例え.テスト", "127.0.0.1", "[::1]", "[2001:db8::1]", "www.com", "www.", "www.www.example.com", "EXAMPLE.com", "a.b.c.d.e.f.example.com", "blogspot.com", "foo.blogspot.com", "x.y.blogspot.com.", "city.kawasaki.jp", "a.kawasaki.jp", "b.a.kawasaki.jp", "ck", "www.ck", "github.io", "u.github.io", "1.2.3.4.5", "example.com%2e"];
pub const SCHEMES: &[&str] = &["https", "https", "https", "http", "foo", "ftp", "ws", "file"];
pub const PATHS: &[&str] = &["", "/", "/a", "/a/b", "/a/b/", "/a//b", "//", "/é/%41", "/a/b/c/d", "/a?b", "/./..//x", "/a%2Fb"];
pub const QUERIES: &[&str] = &["", "?", "?a=1", "?a=1&b=2", "?a=1&a=2&b=3&a=4", "?&&a=1&", "?a", "?=x", "?%61=1&a=2", "?a=%20+b&%E9=%FF", "?utm_source=x&a=1", "?b=2&a=1&b=3", "?a=1=2&b", "?A=1&a=2"];
pub const FRAGS: &[&str] = &["", "#", "#f", "#é x"];
pub const CREDS: &[&str] = &["", "", "u@", "u:p@", ":p@", "u%40:p%3a@"];
pub const PORTS: &[&str] = &["", "", ":80", ":443", ":8080", ":0"];
pub fn url_string(r: &mut Rng) -> String {
    if r.chance(1, 30) { return r.pick(&["mailto:x@y.com", "data:text/plain,abc", "file:///a/b", "foo:///x/y", "foo:bar?q=1#z", "javascript:alert(1)"]).to_string() }
    format!("{}://{}{}{}{}{}{}", r.pick(SCHEMES), r.pick(CREDS), r.pick(HOSTS), r.pick(PORTS), r.pick(PATHS), r.pick(QUERIES), r.pick(FRAGS))
}
/// A URL the parser accepts.
pub fn url(r: &mut Rng) -> url::Url { loop { if let Ok(u) = url::Url::parse(&url_string(r)) { return u } } }
