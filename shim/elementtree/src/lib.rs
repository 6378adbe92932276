//! Stand-in for the `elementtree` crate: a small non-validating XML reader.
use std::io::Read;
#[derive(Debug)]
pub struct Error(String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
#[derive(Debug, Clone, Default)]
pub struct Element {
    tag: String,
    attrs: Vec<(String, String)>,
    children: Vec<Element>,
    text: String,
    tail: String,
}
pub struct FindChildren<'a> {
    tag: String,
    it: std::slice::Iter<'a, Element>,
}
impl<'a> Iterator for FindChildren<'a> {
    type Item = &'a Element;
    fn next(&mut self) -> Option<&'a Element> {
        let tag = self.tag.clone();
        self.it.find(|e| e.tag == tag)
    }
}
fn unescape(s: &str) -> String {
    s.replace("&lt;", "<")
        .replace("&gt;", ">")
        .replace("&quot;", "\"")
        .replace("&apos;", "'")
        .replace("&amp;", "&")
}
impl Element {
    pub fn from_reader<R: Read>(mut r: R) -> Result<Element, Error> {
        let mut s = String::new();
        r.read_to_string(&mut s).map_err(|e| Error(e.to_string()))?;
        let mut stack: Vec<Element> = vec![];
        let mut root: Option<Element> = None;
        let mut rest = s.as_str();
        while let Some(p) = rest.find('<') {
            let text = unescape(&rest[..p]);
            if let Some(top) = stack.last_mut() {
                match top.children.last_mut() {
                    Some(c) => c.tail.push_str(&text),
                    None => top.text.push_str(&text),
                }
            }
            rest = &rest[p..];
            if rest.starts_with("<!--") {
                let e = rest.find("-->").ok_or(Error("comment".into()))?;
                rest = &rest[e + 3..];
                continue;
            }
            let e = rest.find('>').ok_or(Error("tag".into()))?;
            let tag = &rest[1..e];
            rest = &rest[e + 1..];
            if tag.starts_with('?') || tag.starts_with('!') {
                continue;
            }
            if tag.starts_with('/') {
                let el = stack.pop().ok_or(Error("close".into()))?;
                match stack.last_mut() {
                    Some(t) => t.children.push(el),
                    None => root = Some(el),
                }
                continue;
            }
            let closed = tag.ends_with('/');
            let tag = tag.trim_end_matches('/');
            let mut el = Element::default();
            let (name, mut attrs) = match tag.find(char::is_whitespace) {
                Some(i) => (&tag[..i], tag[i..].trim()),
                None => (tag, ""),
            };
            el.tag = name.to_string();
            while let Some(eq) = attrs.find('=') {
                let k = attrs[..eq].trim().to_string();
                let v = attrs[eq + 1..].trim_start();
                let q = v.chars().next().ok_or(Error("attr".into()))?;
                let end = v[1..].find(q).ok_or(Error("attr".into()))?;
                el.attrs.push((k, unescape(&v[1..1 + end])));
                attrs = v[end + 2..].trim_start();
            }
            if closed {
                match stack.last_mut() {
                    Some(t) => t.children.push(el),
                    None => root = Some(el),
                }
            } else {
                stack.push(el);
            }
        }
        root.ok_or(Error("no root".into()))
    }
    pub fn find(&self, tag: &str) -> Option<&Element> {
        self.children.iter().find(|e| e.tag == tag)
    }
    pub fn find_all<'a>(&'a self, tag: &str) -> FindChildren<'a> {
        FindChildren { tag: tag.to_string(), it: self.children.iter() }
    }
    pub fn children(&self) -> std::slice::Iter<'_, Element> {
        self.children.iter()
    }
    pub fn text(&self) -> &str {
        &self.text
    }
    pub fn get_attr(&self, name: &str) -> Option<&str> {
        self.attrs.iter().find(|(k, _)| k == name).map(|(_, v)| v.as_str())
    }
}
