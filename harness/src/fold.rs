use crate::sx::*;
use crate::util::*;
use icalendar::parser::{read_calendar, read_components, unfold};
use icalendar::*;

/// filler of `n` chars of kind `w`: 1..=4 chars of that many bytes, 5 spaces, 6 words, 7 ideographic spaces, 8 tabs
fn filler(n: usize, w: usize, out: &mut Vec<u8>) {
    for i in 0..n {
        let c = match w {
            1 => "a",
            2 => "é",
            3 => "語",
            4 => "😀",
            5 => " ",
            6 => if i % 4 == 3 { " " } else { "w" },
            7 => "\u{3000}",
            _ => "\t",
        };
        out.extend_from_slice(c.as_bytes());
    }
}
/// checks one serialized piece: physical lines of at most 75 octets, cut between chars, that unfold to `want`
fn folded(w: &[u8], want: &[u8]) {
    let mut i = 0;
    let mut first = true;
    check(w.len() >= 2 && &w[w.len() - 2..] == b"\r\n", 1);
    while i < w.len() {
        let mut e = i;
        while e + 1 < w.len() && !(w[e] == b'\r' && w[e + 1] == b'\n') {
            e += 1;
        }
        let l = &w[i..e];
        check(l.len() <= 75, 2);
        check(!l.is_empty(), 3);
        // a continuation holds at least one octet of content
        let c = if !first && (l[0] == b' ' || l[0] == b'\t') { 1 } else { 0 };
        // no char is torn apart
        check(l.len() > c && l[c] & 0xc0 != 0x80, 5);
        first = false;
        i = e + 2;
    }
    let mut t = want.to_vec();
    t.extend_from_slice(b"\r\n");
    check(ref_unfold(w) == t, 6);
}

crate::harnesses! {
/// params: writer (0 Property, 1 parser's Property, 2 in a component, 3 in a calendar, 4 long parameter),
///   filler kind, least and greatest filler chars, symbolic chars, unicode?, filler chars after
fn h_fold() {
    let mut v: Vec<u8> = vec![];
    let (lo, hi) = (param(2), param(3));
    filler(lo + fork(hi - lo + 1), param(1), &mut v);
    let t = text(param(4), &Set::range(32, 126).or(Set::of(b"\t")), param(5));
    v.extend_from_slice(t.as_bytes());
    filler(param(6), param(1), &mut v);
    let t = s(v);
    let mut want = b"X-F:".to_vec();
    want.extend_from_slice(t.as_bytes());
    match param(0) {
        0 => {
            let o: String = Property::new("X-F", &*t).try_into().unwrap_or_default();
            emit(o.as_bytes());
            folded(o.as_bytes(), &want);
        }
        1 => {
            let o = parser::Property::new_ref("X-F", &t).to_string();
            emit(o.as_bytes());
            folded(o.as_bytes(), &want);
        }
        2 => {
            let o = Event::new().uid("1").add_property("DTSTAMP", "20240101T000000Z").append_property(Property::new("X-F", &*t)).done().to_string();
            emit(o.as_bytes());
            folded(o.as_bytes(), &[b"BEGIN:VEVENT\r\nDTSTAMP:20240101T000000Z\r\nUID:1\r\n", &want[..], b"\r\nEND:VEVENT"].concat());
        }
        3 => {
            let mut c = Calendar::empty();
            c.append_property(Property::new("X-F", &*t));
            let o = c.to_string();
            emit(o.as_bytes());
            folded(o.as_bytes(), &[b"BEGIN:VCALENDAR\r\n", &want[..], b"\r\nEND:VCALENDAR"].concat());
        }
        _ => {
            // the parameter is quoted, as RFC 5545 demands of anything with a colon in it
            assume(!t.contains('"'));
            let mut p = t.clone();
            p.push(':');
            let o: String = Property::new("X-F", "1").add_parameter("X-P", &p).done().try_into().unwrap_or_default();
            emit(o.as_bytes());
            folded(o.as_bytes(), &[b"X-F;X-P=\"", p.as_bytes(), b"\":1"].concat());
        }
    }
    cover(1);
}

/// params: chars, unicode?
/// unfolding removes every line break followed by a space or tab, and nothing else
fn h_unfold() {
    let t = text(param(0), &ASCII, param(1));
    let b = t.as_bytes();
    let mut want: Vec<u8> = vec![];
    let mut i = 0;
    while i < b.len() {
        let k = if b[i] == b'\r' && i + 1 < b.len() && b[i + 1] == b'\n' { i + 2 } else if b[i] == b'\n' { i + 1 } else { 0 };
        if k != 0 && k < b.len() && (b[k] == b' ' || b[k] == b'\t') {
            cover(1);
            i = k + 1;
        } else {
            want.push(b[i]);
            i += 1;
        }
    }
    let u = unfold(&t);
    emit(u.as_bytes());
    check(u.as_bytes() == want, 1);
}

/// params: document, folds (1 or 2)
/// where a document is folded does not matter to what is read
fn h_foldpos() {
    let doc = match param(0) {
        0 => "BEGIN:VCALENDAR\r\nBEGIN:VEVENT\r\nUID:1\r\nSUMMARY;X-A=\"b;c\";X-D=e:a\\,b\\\\ cé 語😀\r\nEND:VEVENT\r\nEND:VCALENDAR\r\n",
        1 => "BEGIN:VEVENT\nATTENDEE;CN=x y:mailto:a@b\nATTENDEE:mailto:c\nBEGIN:VALARM\nTRIGGER;RELATED=END:-PT5M\nEND:VALARM\nEND:VEVENT\n",
        2 => "BEGIN:VTODO\r\nCOMMENT:x\\ny\\;z  \r\nDUE;VALUE=DATE:20240229\r\nEND:VTODO\r\n",
        3 => "BEGIN:VCALENDAR\nX-NOVALUE\nBEGIN:VTIMEZONE\nTZID:Europe/Berlin\nBEGIN:STANDARD\nRRULE:FREQ=YEARLY;BYMONTH=10;BYDAY=-1SU\nEND:STANDARD\nEND:VTIMEZONE\nEND:VCALENDAR\n",
        4 => "BEGIN:VEVENT\r\nSUMMARY:  a\t\t b \t\r\nX-B;C=;D:\r\nLOCATION:\\\\\r\nURL:a:b\r\nEND:VEVENT\r\nBEGIN:X-Y\r\nEND:X-Y",
        _ => "BEGIN:VVENUE\nSTREET-ADDRESS;LANGUAGE=\"de,en\";X-\u{c4}=1:\u{3000}\u{3000}e\u{301}\u{fe0f}\n\nPOSTAL-CODE:\nEND:VVENUE\n",
    };
    let k = param(1);
    let a = fork(doc.len());
    let b = if k > 1 { a + fork(12) } else { a };
    assume(doc.is_char_boundary(a) && a > 0);
    if k > 1 {
        assume(b < doc.len() && doc.is_char_boundary(b));
    }
    // not within or before a line break (that would not be folding a content line)
    for p in [a, b] {
        let d = doc.as_bytes();
        assume(d[p] != b'\n' && d[p] != b'\r' && d[p - 1] != b'\n');
    }
    let br = ["\r\n ", "\r\n\t", "\n ", "\n\t"];
    let mut f = String::new();
    f.push_str(&doc[..a]);
    f.push_str(br[fork(4)]);
    f.push_str(&doc[a..b]);
    if k > 1 {
        f.push_str(br[fork(4)]);
    }
    f.push_str(&doc[b..]);
    let u = unfold(&f);
    check(u == doc, 1);
    match (f.parse::<Calendar>(), doc.parse::<Calendar>()) {
        (Ok(x), Ok(y)) => check(x == y && !y.components.is_empty(), 2),
        _ => fail(3),
    }
    match (f.parse::<CalendarComponent>(), doc.parse::<CalendarComponent>()) {
        (Ok(x), Ok(y)) => check(x == y, 4),
        _ => fail(5),
    }
    emit(f.as_bytes());
    cover(1);
}

/// params: document
/// each line ending may be LF or CRLF, blank lines do not matter, and the last line ending may be missing
fn h_eol() {
    let lines: &[&str] = match param(0) {
        0 => &["BEGIN:VCALENDAR", "SUMMARY:a", "BEGIN:VEVENT", "DTSTART:20240101T000000Z", "X-U:u", "END:VEVENT", "END:VCALENDAR"],
        1 => &["BEGIN:VEVENT", "ATTENDEE;CN=\"a:b\":mailto:x", "ATTENDEE:y", "COMMENT:x\\ny", "END:VEVENT", "BEGIN:VTODO", "END:VTODO"],
        2 => &["BEGIN:VEVENT", "BEGIN:VALARM", "TRIGGER:PT5M", "END:VALARM", "BEGIN:VALARM", "END:VALARM", "END:VEVENT"],
        3 => &["BEGIN:VTIMEZONE", "TZID:A/B", "BEGIN:STANDARD", "TZNAME;LANGUAGE=en:", "END:STANDARD", "X-EMPTY:", "END:VTIMEZONE"],
        4 => &["BEGIN:VEVENT", "X-NOVALUE", "SUMMARY: a ", "X-B;C=;D:\ra", "END:VEVENT", "BEGIN:X", "END:X"],
        _ => &["BEGIN:A", "END:A", "BEGIN:VTODO", "UID:\t", "END:VTODO", "BEGIN:B", "END:B"],
    };
    let blank = param(1) == 1;
    let at = if blank && param(2) >= lines.len() { fork(lines.len() - 1) } else { param(2) };
    let mut f: Vec<u8> = vec![];
    let mut plain = String::new();
    if param(1) == 2 {
        for _ in 0..fork(10) { f.push(b'\n'); }
    }
    for (i, l) in lines.iter().enumerate() {
        f.extend_from_slice(l.as_bytes());
        plain.push_str(l);
        plain.push('\n');
        let last = i + 1 == lines.len();
        let n = if last { 3 } else { 2 };
        match fork(n) {
            0 => f.extend_from_slice(b"\n"),
            1 => f.extend_from_slice(b"\r\n"),
            _ => {}
        }
        if blank && !last && i == at {
            let k = fork(3);
            for j in 0..1 + fork(6) {
                f.extend_from_slice([&b"\n"[..], b"\r\n", [&b"\n"[..], b"\r\n"][j % 2]][k]);
            }
        }
        if param(1) == 2 && last && f.ends_with(b"\n") {
            for _ in 0..fork(10) { f.extend_from_slice([&b"\n"[..], b"\r\n"][i % 2]); }
        }
    }
    let f = s(f);
    let a = read_components(&f);
    let b = read_components(&plain);
    match (a, b) {
        (Ok(a), Ok(b)) => {
            check(!b.is_empty() && a == b, 1);
            cover(1);
        }
        _ => fail(2),
    }
    match (read_calendar(&f), read_calendar(&plain)) {
        (Ok(a), Ok(b)) => check(a.components == b.components && a.properties == b.properties, 3),
        _ => fail(4),
    }
    match (f.parse::<Calendar>(), plain.parse::<Calendar>()) {
        (Ok(a), Ok(b)) => check(a == b, 5),
        _ => fail(6),
    }
    emit(f.as_bytes());
}

/// params: chars, unicode?, line ending after (0 LF, 1 CRLF, 2 none)
/// a property value is everything between the colon and the line break, wherever CRs and other odd chars are in it
fn h_eol_value() {
    let v = text(param(0), &ASCII.minus(Set::of(b"\r\n")), param(1));
    let end = ["\n", "\r\n", ""][param(2)];
    let one = ["X-V:", &v, end].concat();
    match parser::Property::try_from(&*one) {
        Ok(p) => check(p.val.as_str() == v && p.name.as_str() == "X-V", 1),
        Err(_) => fail(2),
    }
    let doc = ["BEGIN:VEVENT\n", "X-V:", &v, if end.is_empty() { "\r\n" } else { end }, "X-W:2\r\nEND:VEVENT\n"].concat();
    match read_components(&doc) {
        Ok(c) => {
            check(c.len() == 1 && c[0].properties.len() == 2, 3);
            check(c[0].properties[0].val.as_str() == v && c[0].properties[1].val.as_str() == "2", 4);
        }
        Err(_) => fail(5),
    }
    emit(one.as_bytes());
    cover(1);
}
}
