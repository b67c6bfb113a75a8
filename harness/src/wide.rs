//! Sizes: many components, properties, occurrences and parameters, deep nesting, long texts, long names; the rest of the API
use crate::sx::*;
use crate::util::*;
use crate::values::{OTHERS, TEXTS};
use icalendar::parser::{read_calendar, read_calendar_simple, read_components, unfold};
use icalendar::*;
use std::convert::TryFrom;

fn num(n: usize) -> String {
    let mut o = vec![];
    let mut n = n;
    loop {
        o.insert(0, b'0' + (n % 10) as u8);
        n /= 10;
        if n == 0 {
            return s(o);
        }
    }
}
/// sizes lo, lo+step, ... up to hi; step 0: around round numbers
fn size(lo: usize, hi: usize, step: usize) -> usize {
    if step == 0 {
        const ROUND: [usize; 34] = [31, 32, 33, 49, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 255, 256, 257, 499, 500, 511, 512, 513, 998, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097];
        let a = ROUND.iter().filter(|x| **x < lo).count();
        let b = ROUND.iter().filter(|x| **x <= hi).count();
        return ROUND[a + fork(b - a)];
    }
    lo + step * fork((hi - lo) / step + 1)
}
/// position of the symbolic one among n: first, last, or in the middle
fn place(n: usize) -> usize {
    match fork(3) {
        0 => 0,
        1 => n.saturating_sub(1),
        _ => n / 2,
    }
}
fn line(d: &mut String, lines: &mut Vec<Vec<u8>>, l: &[&str]) {
    let l = l.concat();
    d.push_str(&l);
    d.push_str("\r\n");
    lines.push(l.into_bytes());
}

crate::harnesses! {
/// params: what there are many of (0 components, 1 alarms, 2 occurrences of a repeatable property, 3 properties of an unknown
///   component, 4 levels, 5 calendar properties, 6 sub-components in different kinds), least, most, step
/// what is read and written does not depend on how much there is
fn h_many() {
    let what = param(0);
    let n = size(param(1), param(2), param(3));
    let at = place(n);
    let c = string(1, &NAMECH.or(Set::range(b'a', b'z')));
    let v = |i: usize| if i == at { ["v", &c].concat() } else { "v".to_string() };
    let mut d = String::new();
    let mut l: Vec<Vec<u8>> = vec![];
    let ids = ["UID:1", "DTSTAMP:20240101T000000Z"];
    macro_rules! add { ($($x:expr),*) => { line(&mut d, &mut l, &[$($x),*]) } }
    add!("BEGIN:VCALENDAR");
    match what {
        0 => for i in 0..n {
            add!("BEGIN:", KIND_NAMES[i % 4]);
            add!("UID:", &num(i));
            add!(ids[1]);
            add!("X-V:", &v(i));
            add!("END:", KIND_NAMES[i % 4]);
        },
        1 | 6 => {
            add!("BEGIN:VEVENT");
            add!(ids[0]);
            add!(ids[1]);
            for i in 0..n {
                let k = if what == 1 { "VALARM" } else { ["VALARM", "VEVENT", "X-O"][i % 3] };
                add!("BEGIN:", k);
                add!("UID:", &num(i));
                add!(ids[1]);
                add!("X-V:", &v(i));
                add!("END:", k);
            }
            add!("END:VEVENT");
        }
        2 => {
            let name = ["COMMENT", "ATTENDEE", "EXDATE", "REQUEST-STATUS"][fork(4)];
            add!("BEGIN:VTODO");
            add!(ids[0]);
            add!(ids[1]);
            for i in 0..n {
                // every third is the same as the one before
                add!(name, ":", &num(i - (i % 3 == 2) as usize), &v(i));
            }
            add!("END:VTODO");
        }
        3 => {
            add!("BEGIN:X-OTHER");
            add!(ids[0]);
            add!(ids[1]);
            for i in 0..n {
                add!("X-", &num(i), ":", &v(i));
            }
            add!("END:X-OTHER");
        }
        4 => {
            for i in 0..n {
                add!("BEGIN:X-L", &num(i));
                add!(ids[0]);
                add!(ids[1]);
                add!("X-V:", &v(i));
            }
            for i in (0..n).rev() {
                add!("END:X-L", &num(i));
            }
        }
        _ => for i in 0..n {
            add!("X-", &num(i), ":", &v(i));
        },
    }
    add!("END:VCALENDAR");
    emit(d.as_bytes());
    let want = match ref_tree(&l) { Some(t) => t, None => return fail(1) };
    let want = &want[0];
    // typed
    let cal: Calendar = match d.parse() { Ok(c) => c, Err(_) => return fail(2) };
    let props: Vec<Vec<u8>> = cal.properties.iter().map(|p| [p.key().as_bytes(), b":", p.value().as_bytes()].concat()).collect();
    check(props == want.props, 3);
    check(cal.components.len() == want.kids.len() && cal.len() == want.kids.len(), 4);
    for (x, y) in cal.components.iter().zip(&want.kids) {
        check(tree_of(dynof(x)).normal(false) == y.normal(false), 5);
    }
    let w = cal.to_string();
    let wl = match ref_lines(w.as_bytes()) { Some(l) => l, None => return fail(6) };
    match ref_tree(&wl) {
        Some(t) => check(t.len() == 1 && t[0].normal(false) == want.normal(false), 7),
        None => fail(8),
    }
    // repeated properties stay in order
    if what == 2 {
        let got: Vec<&Vec<u8>> = wl.iter().filter(|x| starts(x, b"COMMENT") || starts(x, b"ATTENDEE") || starts(x, b"EXDATE") || starts(x, b"REQUEST")).collect();
        check(got.len() == n && got.iter().zip(&l[4..]).all(|(a, b)| **a == *b), 9);
    }
    match w.parse::<Calendar>() {
        Ok(e) => check(e == cal, 10),
        Err(_) => fail(11),
    }
    // parser's types, in document order
    match read_calendar(&d) {
        Ok(p) => {
            let o = p.to_string();
            match ref_lines(o.as_bytes()).and_then(|l| ref_tree(&l)) {
                Some(t) => check(t.len() == 1 && t[0] == *want, 12),
                None => fail(13),
            }
        }
        Err(_) => fail(14),
    }
    cover(1);
}

/// params: least, most, step
/// many components put in by code
fn h_many_ops() {
    let n = size(param(0), param(1), param(2));
    let how = fork(4);
    let all: Vec<CalendarComponent> = (0..n).map(|i| comp(i % 4, &num(i))).collect();
    let mut c = Calendar::new();
    match how {
        0 => for x in all { c.push(x); },
        1 => {
            let mut o = Calendar::new();
            c.push(comp(0, "0"));
            let mut first = true;
            for x in all {
                // the first one is there already
                if !first { o.push(x); }
                first = false;
            }
            c.append(&mut o);
            check(o.is_empty() && o.components.is_empty(), 1);
            if n == 0 { c.components.clear(); }
        }
        2 => c.extend(all),
        _ => c = all.into_iter().collect(),
    }
    check(c.len() == n && c.iter().count() == n && c.is_empty() == (n == 0), 2);
    for (i, x) in c.iter().enumerate() {
        check(kind_of(x) == i % 4 && dynof(x).prop("UID") == Some(&num(i)), 3);
    }
    let d = c.done();
    check(d.len() == n && c.is_empty() && c.properties.is_empty() && d.properties.len() == 3, 4);
    let w = d.to_string();
    match ref_lines(w.as_bytes()).and_then(|l| ref_tree(&l)) {
        Some(t) => check(t.len() == 1 && t[0].kids.len() == n && t[0].kids.iter().enumerate().all(|(i, k)| k.named("UID").len() == 1 && k.named("UID")[0][4..] == *num(i).as_bytes() && k.named("DTSTAMP").len() == 1), 5),
        None => fail(6),
    }
    check(w.parse::<Calendar>().ok() == Some(d), 7);
    cover(1);
}

/// params: least, most, step, line ending
/// many roots
fn h_many_roots() {
    let n = size(param(0), param(1), param(2));
    let e = ["\n", "\r\n"][param(3)];
    let at = place(n);
    let c = string(1, &NAMECH);
    let mut d = String::new();
    for i in 0..n {
        for p in ["BEGIN:", KIND_NAMES[i % 4], e, "UID:", &num(i), if i == at { &c } else { "" }, e, "END:", KIND_NAMES[i % 4], e] {
            d.push_str(p);
        }
        if i % 5 == 4 { d.push_str(e); }
    }
    emit(d.as_bytes());
    let ok = |i: usize, u: Option<&str>| u == Some(&if i == at { [&num(i), &*c].concat() } else { num(i) });
    match read_components(&d) {
        Ok(v) => {
            check(v.len() == n, 1);
            for (i, x) in v.iter().enumerate() {
                check(x.name == KIND_NAMES[i % 4] && ok(i, x.find_prop("UID").map(|p| p.val.as_str())), 2);
            }
        }
        Err(_) => fail(3),
    }
    match (read_calendar_simple(&d), d.parse::<Calendar>()) {
        (Ok(a), Ok(b)) => {
            check(a.len() == n && b.len() == n, 4);
            for (i, x) in b.iter().enumerate() {
                check(kind_of(x) == i % 4 && ok(i, dynof(x).prop("UID")), 5);
            }
            cover(1);
        }
        _ => fail(6),
    }
}

/// params: least, most, step, writer (0 typed, 1 parser's)
/// many parameters on one property
fn h_many_params() {
    let n = size(param(0), param(1), param(2));
    let at = place(n);
    let c = string(1, &Set::range(32, 126).minus(Set::of(b"\"")));
    let v = |i: usize| if i == at { ["v", &c].concat() } else { num(i) };
    let w: String = if param(3) == 0 {
        let mut p = Property::new("ATTENDEE", "mailto:x");
        for i in 0..n {
            p.add_parameter(&["X-", &num(i)].concat(), &v(i));
        }
        check(p.params().len() == n, 1);
        p.done().try_into().unwrap_or_default()
    } else {
        let mut p = parser::Property::new_ref("ATTENDEE", "mailto:x");
        let all: Vec<(String, String)> = (0..n).map(|i| (["X-", &num(i)].concat(), v(i))).collect();
        p.params = all.iter().map(|(k, v)| parser::Parameter::new_ref(k, Some(v))).collect();
        p.to_string()
    };
    if n < 2 || param(3) == 1 { emit(w.as_bytes()); }
    let l = match ref_lines(w.as_bytes()) { Some(l) => l, None => return fail(2) };
    check(l.len() == 1, 3);
    match ref_content_line(&l[0]) {
        Some(r) => {
            check(r.params.len() == n && r.value == b"mailto:x" && r.name == b"ATTENDEE", 4);
            for i in 0..n {
                let k = ["X-", &num(i)].concat();
                let mut f = r.params.iter().filter(|p| p.0 == k.as_bytes());
                check(f.next().map(|p| p.1 == v(i).as_bytes()) == Some(true) && f.next().is_none(), 5);
                if param(3) == 1 { check(r.params[i].0 == k.as_bytes(), 6); }
            }
        }
        None => fail(7),
    }
    match unfold(&w).parse::<Property>() {
        Ok(q) => {
            check(q.params().len() == n && q.value() == "mailto:x", 8);
            for i in 0..n {
                check(q.params().get(&["X-", &num(i)].concat()).map(|p| p.value().to_string()) == Some(v(i)), 9);
            }
            cover(1);
        }
        Err(_) => fail(10),
    }
}

/// params: setter (KINDS all), unit of the filler (0.. see below), least, most, step
/// texts of any length come back, and are on the wire in RFC 5545 form and folded
fn h_long() {
    const UNITS: [&str; 12] = ["x", "ab ", "\\", ",", ";", "\n", "é", "語", "😀", "a\\n,b;c\n", " ", "\\\\n\u{3000}"];
    let k = if param(0) >= KINDS { fork(KINDS) } else { param(0) };
    let n = size(param(2), param(3), param(4));
    let mut t = UNITS[param(1)].repeat(n);
    let end = fork(2) == 1;
    let c = string(1, &ASCII.minus(Set::of(b"\r")));
    if end { t.push_str(&c) } else { t.insert_str(0, &c) }
    let cal = kind_set(k, &t);
    check(kind_get(k, &cal).as_deref() == Some(&t), 1);
    let w = cal.to_string();
    emit_wire(&w);
    let mut len = 0;
    for b in w.bytes() {
        len += 1;
        if b == b'\n' {
            check(len <= 77, 2);
            len = 0;
        }
    }
    let lines = match ref_lines(w.as_bytes()) { Some(l) => l, None => return fail(3) };
    let v = named(&lines, kind_name(k));
    check(v.len() == 1, 4);
    match v.first().and_then(|l| ref_content_line(l)).and_then(|l| ref_text(&l.value)) {
        Some(d) => check(d == t.as_bytes(), 5),
        None => fail(6),
    }
    match w.parse::<Calendar>() {
        Ok(d) => check(kind_get(k, &d).as_deref() == Some(&t), 7),
        Err(_) => fail(8),
    }
    // the parser's types
    let u = unfold(&w);
    match read_calendar(&u) {
        Ok(p) => {
            let o = p.to_string();
            check(o == w, 9);
            cover(1);
        }
        Err(_) => fail(10),
    }
}

/// params: chars of the name after "X-" or nothing, level-independent; list (0 symbolic name, 1 registered names)
/// properties of any name keep it, and their value (verbatim, or as TEXT if that is what the name says)
fn h_prop_name() {
    // RFC 5545, 7986, 9073, 9074, 6321, 7529, and widespread ones; none of them is TEXT to the library unless it is in TEXTS
    const MORE: [&str; 40] = [
        "IMAGE", "COLOR", "CONFERENCE", "SOURCE", "REFRESH-INTERVAL", "X-PUBLISHED-TTL", "CALENDAR-ADDRESS", "LOCATION-TYPE", "PARTICIPANT-TYPE", "RESOURCE-TYPE", "STRUCTURED-DATA", "STYLED-DESCRIPTION",
        "ACKNOWLEDGED", "PROXIMITY", "BUSYTYPE", "TZUNTIL", "TZID-ALIAS-OF", "EXRULE", "LINK", "CONCEPT", "REFID", "RELATED-ID", "XML", "POLL-ITEM-ID", "QUERY", "VOTER", "X-APPLE-DEFAULT-ALARM", "X-ALT-DESC",
        "X-MICROSOFT-CDO-BUSYSTATUS", "X-WR-RELCALID", "X-LIC-LOCATION", "X-MOZ-GENERATION", "X-GOOGLE-CONFERENCE", "X-TITLE", "X-ADDRESS", "X-EVOLUTION-CALDAV-HREF", "TEL", "EMAIL", "N", "VALUE",
    ];
    let name = match param(1) {
        0 => {
            let pre = ["X-", "", "A", "x-"][fork(4)];
            let n = [pre, &string(param(0), &NAMECH.or(Set::range(b'a', b'z')))].concat();
            assume(!n.is_empty());
            // names of the structure, and names that are known, are dealt with elsewhere
            for t in TEXTS { assume(n != t); }
            for (t, _) in OTHERS { assume(n != t); }
            for t in ["BEGIN", "END"] { assume(n != t); }
            n
        }
        _ => MORE[fork(MORE.len())].to_string(),
    };
    let v = ["\\n,;:\"", &string(1, &PRINT), "é\\"].concat();
    let level = fork(4);
    let mut c = Calendar::empty();
    let p = Property::new(&*name, &*v);
    let ids = |e: &mut Event| { e.uid("1").append_property(("DTSTAMP", "20240101T000000Z")); };
    match level {
        0 => { c.append_property(p); }
        1 => {
            let mut e = Event::new();
            ids(&mut e);
            c.push(e.append_property(p).done());
        }
        2 => {
            let mut e = Event::new();
            ids(&mut e);
            c.push(e.append_multi_property(p).done());
        }
        _ => {
            let mut e = Event::new();
            ids(&mut e);
            c.push(e.alarm(Alarm::audio(chrono::Duration::minutes(1)).uid("2").append_property(("DTSTAMP", "20240101T000000Z")).append_property(p).done()).done());
        }
    }
    let w = c.to_string();
    emit_wire(&w);
    let lines = match ref_lines(w.as_bytes()) { Some(l) => l, None => return fail(1) };
    let want = [name.as_bytes(), b":", v.as_bytes()].concat();
    check(lines.iter().filter(|l| ***l == *want).count() == 1, 2);
    check(lines.len() == [3, 7, 7, 13][level], 3);
    match w.parse::<Calendar>() {
        Ok(d) => {
            let got = match level {
                0 => d.properties.iter().find(|p| p.key() == name).map(|p| p.value().to_string()),
                3 => dynof(&d.components[0]).kids()[0].prop(&name).map(|x| x.to_string()),
                _ => dynof(&d.components[0]).prop(&name).map(|x| x.to_string()),
            };
            check(got.as_deref() == Some(&v), 4);
            let n = match level {
                0 => d.properties.len(),
                3 => dynof(&d.components[0]).kids()[0].props().len() - 4,
                _ => dynof(&d.components[0]).props().len() - 2,
            };
            check(n == 1, 5);
        }
        Err(_) => fail(6),
    }
    let u = unfold(&w);
    match read_calendar(&u) {
        Ok(p) => {
            check(unfold(&p.to_string()) == u, 7);
            cover(1);
        }
        Err(_) => fail(8),
    }
}

/// params: longest name
/// names of properties, parameters and components may be long
fn h_long_name() {
    let n = 1 + fork(param(0));
    let name = ["X-", &"N".repeat(n), &string(1, &NAMECH)].concat();
    let mut e = Event::new();
    e.uid("1").append_property(("DTSTAMP", "20240101T000000Z"));
    e.append_property(Property::new(&*name, "a\\;b").add_parameter(&name, "q;r").done());
    let mut c = Calendar::empty();
    c.push(e.done());
    let w = c.to_string();
    emit(w.as_bytes());
    let lines = match ref_lines(w.as_bytes()) { Some(l) => l, None => return fail(1) };
    let l = named(&lines, &name);
    check(l.len() == 1, 2);
    match l.first().and_then(|l| ref_content_line(l)) {
        Some(r) => check(r.name == name.as_bytes() && r.value == b"a\\;b" && r.params.len() == 1 && r.params[0].0 == name.as_bytes() && r.params[0].1 == b"q;r", 3),
        None => fail(4),
    }
    match w.parse::<Calendar>() {
        Ok(d) => check(d == c, 5),
        Err(_) => fail(6),
    }
    let d = ["BEGIN:", &name, "\r\nUID:1\r\nDTSTAMP:20240101T000000Z\r\nBEGIN:", &name, "\r\nEND:", &name, "\r\nEND:", &name, "\r\n"].concat();
    match parser::Component::try_from(&*d) {
        Ok(x) => {
            check(x.name.as_str() == name && x.components.len() == 1 && x.components[0].name.as_str() == name, 7);
            let c = Calendar::from(vec![x]);
            check(c.len() == 1 && dynof(&c[0]).kind() == name && dynof(&c[0]).kids().len() == 1 && dynof(&c[0]).kids()[0].kind() == name, 8);
            cover(1);
        }
        Err(_) => fail(9),
    }
}
}
