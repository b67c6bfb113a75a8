use crate::sx::*;
use crate::util::*;
use icalendar::parser::{read_calendar, unfold};
use icalendar::*;

crate::harnesses! {
/// params: setter (KINDS = all of them), chars, unicode?, filler before, filler after
/// a text set through a typed setter is what the typed getter returns, before and after a trip over the wire
fn h_text_rt() {
    let k = if param(0) >= KINDS { fork(KINDS) } else { param(0) };
    let pre = param(3);
    let post = param(4);
    let mut t = "x".repeat(pre);
    t.push_str(&text(param(1), &ASCII, param(2)));
    t.push_str(&"y".repeat(post));
    let c = kind_set(k, &t);
    check(kind_get(k, &c).as_deref() == Some(&t), 1);
    let w = c.to_string();
    emit_wire(&w);
    match w.parse::<Calendar>() {
        Ok(d) => {
            check(kind_get(k, &d).as_deref() == Some(&t), 2);
            cover(1);
            // and once more: the second generation writes the same thing (DTSTAMP and UID are kept)
            let w2 = d.to_string();
            match w2.parse::<Calendar>() {
                Ok(e) => check(e == d, 3),
                Err(_) => fail(4),
            }
        }
        Err(_) => fail(5),
    }
}

/// params as above
/// the wire form of a TEXT value is the RFC 5545 encoding of it: nothing but a strict decoder is needed to get it back
fn h_text_wire() {
    let k = if param(0) >= KINDS { fork(KINDS) } else { param(0) };
    let mut t = "x".repeat(param(3));
    t.push_str(&text(param(1), &ASCII, param(2)));
    t.push_str(&"y".repeat(param(4)));
    let w = kind_set(k, &t).to_string();
    emit_wire(&w);
    let lines = match ref_lines(w.as_bytes()) { Some(l) => l, None => return fail(1) };
    let v = named(&lines, kind_name(k));
    check(v.len() == 1, 2);
    if v.len() != 1 {
        return;
    }
    let l = match ref_content_line(v[0]) { Some(l) => l, None => return fail(3) };
    match ref_text(&l.value) {
        Some(d) => check(d == t.as_bytes(), 4),
        None => fail(5),
    }
    // the content lines around it are the ones the setters stand for, nothing was injected
    let plain = kind_set(k, "x").to_string();
    let plain = ref_lines(plain.as_bytes()).unwrap_or_default();
    check(lines.len() == plain.len(), 6);
    if lines.len() == plain.len() {
        for (a, b) in lines.iter().zip(&plain) {
            if b.ends_with(b":x") {
                match ref_content_line(a) {
                    Some(l) => check(starts(b, &l.name) && ref_text(&l.value).as_deref() == Some(t.as_bytes()), 7),
                    None => fail(8),
                }
            } else {
                check(a == b || starts(a, b"UID:") && starts(b, b"UID:"), 9);
            }
        }
    }
    cover(1);
}

/// params: chars, unicode?, name (0 SUMMARY, 1 COMMENT (multi), 2 X-T;VALUE=TEXT, 3 X-WR-CALNAME on the calendar)
/// TEXT on the wire is decoded as RFC 5545 says; lenient extras (`\:`) do not get in the way of it
fn h_text_decode() {
    let v = text(param(0), &ASCII.minus(Set::of(b"\r\n")), param(1));
    // reference decoding; unknown escapes are not defined by the RFC
    let b = v.as_bytes();
    let mut d: Vec<u8> = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            i += 1;
            if i == b.len() {
                assume(false);
                return;
            }
            match b[i] {
                b'n' | b'N' => d.push(b'\n'),
                b'\\' => d.push(b'\\'),
                b',' => d.push(b','),
                b';' => d.push(b';'),
                b':' => d.push(b':'),
                _ => { assume(false); return; }
            }
        } else {
            d.push(b[i]);
        }
        i += 1;
    }
    let t = s(d);
    let p = parser::ParseString::from(&*v);
    check(p.clone().unescape_text() == &*t && p.clone().unescape_by_value_type(ValueType::Text) == &*t && p.clone().unescape_by_value_type(ValueType::Uri) == &*v, 5);
    check(p.to_owned() == p && String::from(p.clone().into_owned()) == v && p.to_string() == v && parser::ParseString::from(v.clone()) == p, 6);
    let (a, z) = match param(2) {
        0 => ("BEGIN:VCALENDAR\r\nBEGIN:VEVENT\r\nSUMMARY:", "\r\nUID:1\r\nEND:VEVENT\r\nEND:VCALENDAR\r\n"),
        1 => ("BEGIN:VCALENDAR\r\nBEGIN:VEVENT\r\nCOMMENT:", "\r\nUID:1\r\nEND:VEVENT\r\nEND:VCALENDAR\r\n"),
        2 => ("BEGIN:VCALENDAR\r\nBEGIN:VEVENT\r\nX-T;VALUE=TEXT:", "\r\nUID:1\r\nEND:VEVENT\r\nEND:VCALENDAR\r\n"),
        _ => ("BEGIN:VCALENDAR\r\nX-WR-CALNAME:", "\r\nEND:VCALENDAR\r\n"),
    };
    let doc = [a, &v, z].concat();
    let doc = unfold(&doc);
    let p = match read_calendar(&doc) { Ok(p) => p, Err(_) => return fail(1) };
    if param(2) < 3 {
        check(p.components.len() == 1 && p.components[0].properties.len() == 2, 2);
        let q = &p.components[0].properties[0];
        check(q.val.as_str() == t, 3);
    } else {
        check(p.properties.len() == 1, 2);
        check(p.properties[0].val.as_str() == t, 3);
    }
    let c = Calendar::from(p);
    let got = match param(2) {
        0 => c.components[0].as_event().and_then(|e| e.get_summary()),
        1 => c.components[0].as_event().and_then(|e| e.multi_properties().get("COMMENT")).map(|v| v[0].value()),
        2 => c.components[0].as_event().and_then(|e| e.property_value("X-T")),
        _ => c.get_name(),
    };
    check(got == Some(&t), 4);
    emit(t.as_bytes());
    cover(1);
}
}
