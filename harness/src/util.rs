//! Shared pieces of the harnesses: symbolic strings, text setters of the public API, and reference
//! (RFC 5545) readers of the wire format that share no code with the library.
use crate::sx::*;
use icalendar::*;

pub const ASCII: Set = Set::range(0, 127);
pub const PRINT: Set = Set::range(32, 126);
pub const CONT: Set = Set::range(0x80, 0xbf);
pub const DIGIT: Set = Set::range(b'0', b'9');
pub const NAMECH: Set = Set::range(b'A', b'Z').or(Set::range(b'0', b'9')).or(Set::of(b"-"));

pub fn s(v: Vec<u8>) -> String {
    // every byte sequence built here is valid UTF-8 by construction
    unsafe { String::from_utf8_unchecked(v) }
}
/// `n` symbolic bytes out of `set`
pub fn bytes(n: usize, set: &Set) -> Vec<u8> {
    let mut v = Vec::with_capacity(n + 8);
    for _ in 0..n {
        v.push(byte(set));
    }
    v
}
pub fn string(n: usize, set: &Set) -> String {
    s(bytes(n, set))
}
/// one symbolic char of class `k`: 0 out of `ascii`, 1 two bytes, 2..=4 three bytes, 5..=7 four bytes; all classes together are
/// all Unicode scalar values
fn push_char(v: &mut Vec<u8>, k: usize, ascii: &Set) {
    let (lead, second, more) = match k {
        0 => return v.push(byte(ascii)),
        1 => (Set::range(0xc2, 0xdf), CONT, 0),
        2 => (Set::of(&[0xe0]), Set::range(0xa0, 0xbf), 1),
        3 => (Set::range(0xe1, 0xec).or(Set::of(&[0xee, 0xef])), CONT, 1),
        4 => (Set::of(&[0xed]), Set::range(0x80, 0x9f), 1),
        5 => (Set::of(&[0xf0]), Set::range(0x90, 0xbf), 2),
        6 => (Set::range(0xf1, 0xf3), CONT, 2),
        _ => (Set::of(&[0xf4]), Set::range(0x80, 0x8f), 2),
    };
    v.push(byte(&lead));
    v.push(byte(&second));
    for _ in 0..more {
        v.push(byte(&CONT));
    }
}
/// first bytes of the multi-byte chars of mode 2; the last byte is symbolic
const BLOCKS: [&[u8]; 16] = [
    b"\xc2", b"\xc3", b"\xc4", b"\xc5", b"\xcc", b"\xd9", b"\xdf",
    b"\xe0\xa5", b"\xe1\xba", b"\xe2\x80", b"\xe2\x84", b"\xe3\x80", b"\xed\x9f", b"\xef\xbb",
    b"\xf0\x9f\x98", b"\xf4\x8f\xbf",
];
/// `n` symbolic chars. mode 0: out of `ascii`; 1: any Unicode scalar value (out of `ascii` if below 128); 2: these, or a char out of the 16 blocks
/// of 64 above (with odd cases of every char class); 3: one or the other per char, but only two blocks
pub fn text(n: usize, ascii: &Set, mode: usize) -> String {
    let mut v = Vec::with_capacity(4 * n + 8);
    for _ in 0..n {
        match mode {
            0 => push_char(&mut v, 0, ascii),
            1 => push_char(&mut v, fork(8), ascii),
            _ => {
                let k = fork(if mode == 2 { 17 } else { 3 });
                if k == 0 {
                    push_char(&mut v, 0, ascii);
                } else {
                    v.extend_from_slice(if mode == 2 { BLOCKS[k - 1] } else { BLOCKS[k * 7 - 6] });
                    v.push(byte(&CONT));
                }
            }
        }
    }
    s(v)
}

// ---------------------------------------------------------------- reference wire reader
/// RFC 5545 3.1: removes CRLF followed by one space or tab
pub fn ref_unfold(b: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\r' && i + 2 < b.len() && b[i + 1] == b'\n' && (b[i + 2] == b' ' || b[i + 2] == b'\t') {
            i += 3;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}
/// unfolded content lines of a document all of whose lines end in CRLF
pub fn ref_lines(doc: &[u8]) -> Option<Vec<Vec<u8>>> {
    let u = ref_unfold(doc);
    let mut out = vec![];
    let mut cur = vec![];
    let mut i = 0;
    while i < u.len() {
        if u[i] == b'\r' && i + 1 < u.len() && u[i + 1] == b'\n' {
            out.push(std::mem::take(&mut cur));
            i += 2;
        } else {
            cur.push(u[i]);
            i += 1;
        }
    }
    if cur.is_empty() {
        Some(out)
    } else {
        None
    }
}
/// strict RFC 5545 3.3.11 TEXT decoder
pub fn ref_text(v: &[u8]) -> Option<Vec<u8>> {
    let mut o = Vec::with_capacity(v.len());
    let mut i = 0;
    while i < v.len() {
        match v[i] {
            b'\\' => {
                i += 1;
                if i == v.len() {
                    return None;
                }
                match v[i] {
                    b'\\' => o.push(b'\\'),
                    b',' => o.push(b','),
                    b';' => o.push(b';'),
                    b'n' | b'N' => o.push(b'\n'),
                    _ => return None,
                }
            }
            b',' | b';' | b'\n' => return None,
            c => o.push(c),
        }
        i += 1;
    }
    Some(o)
}
pub struct RefLine {
    pub name: Vec<u8>,
    pub params: Vec<(Vec<u8>, Vec<u8>)>,
    pub value: Vec<u8>,
}
/// RFC 5545 3.1 content line: name *(";" param) ":" value. A single quoted parameter value comes without its quotes, a list as it is
pub fn ref_content_line(l: &[u8]) -> Option<RefLine> {
    let mut i = 0;
    while i < l.len() && l[i] != b';' && l[i] != b':' {
        i += 1;
    }
    let name = l[..i].to_vec();
    if name.is_empty() {
        return None;
    }
    let mut params = vec![];
    while i < l.len() && l[i] == b';' {
        let k = i + 1;
        i = k;
        while i < l.len() && l[i] != b'=' {
            if l[i] == b':' || l[i] == b';' || l[i] == b'"' {
                return None;
            }
            i += 1;
        }
        if i == l.len() {
            return None;
        }
        let key = l[k..i].to_vec();
        i += 1;
        let start = i;
        let mut single = true;
        let mut quoted;
        loop {
            quoted = i < l.len() && l[i] == b'"';
            if quoted {
                i += 1;
                while i < l.len() && l[i] != b'"' {
                    i += 1;
                }
                if i == l.len() {
                    return None;
                }
                i += 1;
            } else {
                while i < l.len() && l[i] != b':' && l[i] != b';' && l[i] != b',' {
                    if l[i] == b'"' {
                        return None;
                    }
                    i += 1;
                }
            }
            if i < l.len() && l[i] == b',' {
                single = false;
                i += 1;
            } else {
                break;
            }
        }
        let val = if single && quoted { l[start + 1..i - 1].to_vec() } else { l[start..i].to_vec() };
        params.push((key, val));
    }
    if i < l.len() && l[i] == b':' {
        Some(RefLine { name, params, value: l[i + 1..].to_vec() })
    } else {
        None
    }
}
pub fn starts(l: &[u8], p: &[u8]) -> bool {
    l.len() >= p.len() && &l[..p.len()] == p
}
/// the lines `NAME:...` / `NAME;...`
/// `name`, or something like it: one char changed, added or dropped anywhere, two swapped, cut short, in other case, twice
pub fn near(name: &str, set: &Set) -> String {
    let mut v = name.as_bytes().to_vec();
    match fork(9) {
        0 => {}
        1 => {
            let i = fork(v.len());
            v[i] = byte(set);
        }
        2 => {
            let i = fork(v.len() + 1);
            v.insert(i, byte(set));
        }
        3 => {
            let i = fork(v.len());
            v.remove(i);
        }
        4 => {
            let i = fork(v.len());
            if i + 1 < v.len() { v.swap(i, i + 1); }
        }
        5 => {
            let i = fork(v.len());
            v.truncate(i);
        }
        6 => v = name.to_ascii_lowercase().into_bytes(),
        7 => {
            v = name.to_ascii_lowercase().into_bytes();
            v[0] = name.as_bytes()[0];
        }
        _ => v.extend_from_slice(name.as_bytes()),
    }
    s(v)
}
pub fn named<'a>(lines: &'a [Vec<u8>], name: &str) -> Vec<&'a Vec<u8>> {
    let n = name.as_bytes();
    let mut o = vec![];
    for l in lines {
        if l.len() > n.len() && starts(l, n) && (l[n.len()] == b':' || l[n.len()] == b';') {
            o.push(l);
        }
    }
    o
}

// ---------------------------------------------------------------- text setters
pub const KINDS: usize = 32;
/// name of the property written by setter `k`
pub fn kind_name(k: usize) -> &'static str {
    ["SUMMARY", "DESCRIPTION", "LOCATION", "UID", "SUMMARY", "DESCRIPTION", "LOCATION", "UID", "SUMMARY", "DESCRIPTION", "STREET-ADDRESS", "EXTENDED-ADDRESS", "LOCALITY", "REGION", "COUNTRY", "POSTAL-CODE", "DESCRIPTION", "NAME", "DESCRIPTION", "TIMEZONE-ID", "X-WR-CALNAME", "X-WR-CALDESC", "X-WR-TIMEZONE", "LOCATION", "COMMENT", "CONTACT", "X-NOTE", "SUMMARY", "COMMENT", "X-WR-CALDESC", "SUMMARY", "X-DESC"][k]
}
/// a calendar in which the text has been set through setter `k`
pub fn kind_set(k: usize, t: &str) -> Calendar {
    let mut c = Calendar::new();
    match k {
        0 => { c.push(Event::new().summary(t).done()); }
        1 => { c.push(Event::new().description(t).done()); }
        2 => { c.push(Event::new().location(t).done()); }
        3 => { c.push(Event::new().uid(t).done()); }
        4 => { c.push(Todo::new().summary(t).done()); }
        5 => { c.push(Todo::new().description(t).done()); }
        6 => { c.push(Todo::new().location(t).done()); }
        7 => { c.push(Todo::new().uid(t).done()); }
        8 => { c.push(Venue::new().summary(t).done()); }
        9 => { c.push(Venue::new().description(t).done()); }
        10 => { c.push(Venue::new().street_address(t).done()); }
        11 => { c.push(Venue::new().extended_address(t).done()); }
        12 => { c.push(Venue::new().locality(t).done()); }
        13 => { c.push(Venue::new().region(t).done()); }
        14 => { c.push(Venue::new().country(t).done()); }
        15 => { c.push(Venue::new().postal_code(t).done()); }
        16 => { c.push(Event::new().alarm(Alarm::display(t, chrono::Duration::minutes(5))).done()); }
        17 | 20 => { c.name(t); }
        18 | 21 => { c.description(t); }
        19 | 22 => { c.timezone(t); }
        23 => { c.push(Event::new().venue(t, "v-1").done()); }
        24 => { c.push(Event::new().add_multi_property("COMMENT", t).done()); }
        25 => { c.push(Todo::new().append_multi_property(Property::new("CONTACT", t)).done()); }
        27 => { c.push(Event::new().append_property(Property::new("SUMMARY", t).add_parameter("LANGUAGE", "de").done()).done()); }
        28 => { c.push(Todo::new().append_multi_property(Property::new("COMMENT", t).add_parameter("LANGUAGE", "de").done()).done()); }
        29 => { c.append_property(Property::new("X-WR-CALDESC", t).add_parameter("X-P", "a;b").done()); }
        30 => if let CalendarComponent::Other(mut o) = comp(3, "1") {
            o.summary(t);
            c.push(o);
        },
        31 => { c.push(Venue::new().append_property(Property::new("X-DESC", t).add_parameter("LANGUAGE", "en").add_parameter("VALUE", "TEXT").add_parameter("X-Z", "1").done()).done()); }
        _ => { c.push(Event::new().append_property(Property::new("X-NOTE", t).add_parameter("VALUE", "TEXT").done()).done()); }
    }
    c
}
pub fn venue(c: &CalendarComponent) -> Option<&Venue> {
    match c {
        CalendarComponent::Venue(v) => Some(v),
        _ => None,
    }
}
pub fn other(c: &CalendarComponent) -> Option<&dyn DynComp> {
    match c {
        CalendarComponent::Other(v) => Some(v),
        _ => None,
    }
}
/// object safe view of a component
pub trait DynComp {
    fn kind(&self) -> String;
    fn prop(&self, k: &str) -> Option<&str>;
    fn kids(&self) -> Vec<&dyn DynComp>;
    fn props(&self) -> &std::collections::BTreeMap<String, Property>;
    fn multi(&self) -> &std::collections::BTreeMap<String, Vec<Property>>;
}
impl<T: Component> DynComp for T {
    fn kind(&self) -> String {
        self.component_kind()
    }
    fn prop(&self, k: &str) -> Option<&str> {
        self.property_value(k)
    }
    fn kids(&self) -> Vec<&dyn DynComp> {
        self.components().iter().map(|c| c as &dyn DynComp).collect()
    }
    fn props(&self) -> &std::collections::BTreeMap<String, Property> {
        self.properties()
    }
    fn multi(&self) -> &std::collections::BTreeMap<String, Vec<Property>> {
        self.multi_properties()
    }
}
pub fn dynof(c: &CalendarComponent) -> &dyn DynComp {
    match c {
        CalendarComponent::Event(e) => e,
        CalendarComponent::Todo(e) => e,
        CalendarComponent::Venue(e) => e,
        CalendarComponent::Other(e) => e,
        _ => unreachable!(),
    }
}
/// what the getter belonging to setter `k` returns
pub fn kind_get(k: usize, c: &Calendar) -> Option<String> {
    let own = |x: Option<&str>| x.map(|y| y.to_owned());
    match k {
        17 => return own(c.get_name()),
        18 => return own(c.get_description()),
        19 => return own(c.get_timezone()),
        20..=22 | 29 => return own(c.property_value(kind_name(k))),
        _ => {}
    }
    if c.components.len() != 1 {
        return None;
    }
    let x = &c.components[0];
    match k {
        0 => own(x.as_event()?.get_summary()),
        1 => own(x.as_event()?.get_description()),
        2 | 23 => own(x.as_event()?.get_location()),
        3 => own(x.as_event()?.get_uid()),
        4 => own(x.as_todo()?.get_summary()),
        5 => own(x.as_todo()?.get_description()),
        6 => own(x.as_todo()?.get_location()),
        7 => own(x.as_todo()?.get_uid()),
        8 => own(venue(x)?.get_summary()),
        9 => own(venue(x)?.get_description()),
        10 => own(venue(x)?.get_street_address()),
        11 => own(venue(x)?.get_extended_address()),
        12 => own(venue(x)?.get_locality()),
        13 => own(venue(x)?.get_region()),
        14 => own(venue(x)?.get_country()),
        15 => own(venue(x)?.get_postal_code()),
        16 => own(x.as_event()?.components().first()?.property_value("DESCRIPTION")),
        27 => own(x.as_event()?.get_summary()),
        30 => own(other(x)?.prop("SUMMARY")),
        31 => own(venue(x)?.property_value("X-DESC")),
        24 | 25 | 28 => {
            let v = dynof(x).multi().get(kind_name(k))?;
            if v.len() != 1 {
                return None;
            }
            own(Some(v[0].value()))
        }
        _ => own(x.as_event()?.property_value("X-NOTE")),
    }
}
/// emits a serialized document without what is random in it (generated UID and DTSTAMP lines, the order of several parameters)
pub fn emit_wire(w: &str) {
    let b = w.as_bytes();
    let mut o: Vec<u8> = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        let mut e = i;
        while e < b.len() && !(b[e] == b'\n' && e > 0 && b[e - 1] == b'\r') {
            e += 1;
        }
        let e = if e < b.len() { e + 1 } else { e };
        let l = &b[i..e];
        if !(starts(l, b"X-DESC;") || starts(l, b"DTSTAMP:") || (l.len() == 42 && starts(l, b"UID:"))) {
            o.extend_from_slice(l);
        }
        i = e;
    }
    emit(&o);
}

/// component tree as an RFC 5545 reader sees it
#[derive(PartialEq, Clone)]
pub struct Tree {
    pub name: Vec<u8>,
    pub props: Vec<Vec<u8>>,
    pub kids: Vec<Tree>,
}
/// None unless every BEGIN has its END and nothing is outside of components
pub fn ref_tree(lines: &[Vec<u8>]) -> Option<Vec<Tree>> {
    let mut stack: Vec<Tree> = vec![];
    let mut roots: Vec<Tree> = vec![];
    for l in lines {
        if starts(l, b"BEGIN:") {
            stack.push(Tree { name: l[6..].to_vec(), props: vec![], kids: vec![] });
        } else if starts(l, b"END:") {
            let t = stack.pop()?;
            if t.name != l[4..] {
                return None;
            }
            match stack.last_mut() {
                Some(p) => p.kids.push(t),
                None => roots.push(t),
            }
        } else {
            stack.last_mut()?.props.push(l.clone());
        }
    }
    if stack.is_empty() {
        Some(roots)
    } else {
        None
    }
}
impl Tree {
    /// content lines of that name
    pub fn named(&self, n: &str) -> Vec<&Vec<u8>> {
        named(&self.props, n)
    }
    /// without generated lines, properties in order of their text
    pub fn normal(&self, drop: bool) -> Tree {
        let mut p: Vec<Vec<u8>> = vec![];
        for l in &self.props {
            if !(drop && (starts(l, b"UID:") || starts(l, b"DTSTAMP:"))) {
                p.push(l.clone());
            }
        }
        p.sort();
        Tree { name: self.name.clone(), props: p, kids: self.kids.iter().map(|k| k.normal(drop)).collect() }
    }
}
/// the same view of a component in memory
pub fn tree_of(c: &dyn DynComp) -> Tree {
    let mut props: Vec<Vec<u8>> = vec![];
    for p in c.props().values() {
        props.push([p.key().as_bytes(), b":", p.value().as_bytes()].concat());
    }
    for v in c.multi().values() {
        for p in v {
            props.push([p.key().as_bytes(), b":", p.value().as_bytes()].concat());
        }
    }
    Tree { name: c.kind().into_bytes(), props, kids: c.kids().iter().map(|k| tree_of(*k)).collect() }
}
/// a component of kind 0 event, 1 to-do, 2 venue, 3 other, with UID `u` and a fixed DTSTAMP
pub fn comp(kind: usize, u: &str) -> CalendarComponent {
    let ts = ("DTSTAMP", "20240101T000000Z");
    match kind {
        0 => Event::new().uid(u).append_property(ts).done().into(),
        1 => Todo::new().uid(u).append_property(ts).done().into(),
        2 => Venue::new().uid(u).append_property(ts).done().into(),
        _ => {
            let d = ["BEGIN:X-OTHER\r\nUID:", u, "\r\nDTSTAMP:20240101T000000Z\r\nEND:X-OTHER\r\n"].concat();
            match d.parse() {
                Ok(c) => c,
                Err(_) => unreachable!(),
            }
        }
    }
}
pub fn kind_of(c: &CalendarComponent) -> usize {
    match c {
        CalendarComponent::Event(_) => 0,
        CalendarComponent::Todo(_) => 1,
        CalendarComponent::Venue(_) => 2,
        _ => 3,
    }
}
pub const KIND_NAMES: [&str; 4] = ["VEVENT", "VTODO", "VVENUE", "X-OTHER"];
pub const DIG: [&str; 12] = ["0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11"];
