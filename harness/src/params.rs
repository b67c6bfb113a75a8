use crate::sx::*;
use crate::util::*;
use icalendar::*;

const SAFE: Set = Set::range(32, 126).minus(Set::of(b"\""));
const KEYCH: Set = Set::range(b'A', b'Z').or(Set::range(b'a', b'z')).or(DIGIT).or(Set::of(b"-"));

/// a calendar holding the property at `level`: 0 calendar, 1 event, 2 event (multi), 3 alarm in a to-do, 4 venue
fn put(level: usize, p: Property) -> Calendar {
    let mut c = Calendar::new();
    match level {
        0 => { c.append_property(p); }
        1 => { c.push(Event::new().append_property(p).done()); }
        2 => { c.push(Event::new().append_multi_property(p).done()); }
        3 => {
            let a = Alarm::audio(chrono::Duration::minutes(5)).append_property(p).done();
            c.push(Todo::new().alarm(a).done());
        }
        _ => { c.push(Venue::new().append_property(p).done()); }
    }
    c
}
fn get<'a>(level: usize, c: &'a Calendar, name: &str) -> Option<&'a Property> {
    if level == 0 {
        let mut it = c.properties.iter().filter(|p| p.key() == name);
        let p = it.next()?;
        return if it.next().is_none() { Some(p) } else { None };
    }
    if c.components.len() != 1 {
        return None;
    }
    let x = dynof(&c.components[0]);
    match level {
        2 => {
            let v = x.multi().get(name)?;
            if v.len() == 1 { Some(&v[0]) } else { None }
        }
        3 => x.kids().first()?.props().get(name),
        _ => x.props().get(name),
    }
}

crate::harnesses! {
/// params: level (5 all), name (0 SUMMARY, 1 ATTENDEE, 2 X-NOTE, 3 DTSTART), chars, unicode?, other parameters, chars of filler
/// parameters come back as they were set, and RFC 5545 readers see the same ones
fn h_param_rt() {
    let level = if param(0) >= 5 { fork(5) } else { param(0) };
    let name = match param(1) { 0 => "SUMMARY", 1 => "ATTENDEE", 2 => "X-NOTE", _ => "DTSTART" };
    // names that may occur more than once are read back into the multi properties
    let level = if level == 2 && name != "ATTENDEE" { 1 } else if level != 0 && level != 3 && name == "ATTENDEE" { 2 } else { level };
    if name == "ATTENDEE" { assume(level != 3); }
    let mut v = "z".repeat(param(5));
    v.push_str(&text(param(2), &SAFE, param(3)));
    let mut p = Property::new(name, if param(1) == 3 { "20240102T030405" } else { "val" });
    let fixed = [("X-ONE", "1"), ("X-TWO", "a;b"), ("X-THREE", "")];
    let k = param(4);
    for (i, (key, val)) in fixed.iter().enumerate() {
        if i < k {
            p.add_parameter(key, val);
        }
    }
    p.add_parameter("X-P", &v);
    let c = put(level, p.done());
    let w = c.to_string();
    if k == 0 {
        emit_wire(&w);
    }
    // what is on the wire
    let lines = match ref_lines(w.as_bytes()) { Some(l) => l, None => return fail(1) };
    let l = named(&lines, name);
    check(l.len() == 1, 2);
    match ref_content_line(l[0]) {
        Some(r) => {
            check(r.params.len() == k + 1, 3);
            check(r.value == if param(1) == 3 { &b"20240102T030405"[..] } else { &b"val"[..] }, 4);
            for (key, val) in &r.params {
                let want: &[u8] = match &key[..] {
                    b"X-P" => v.as_bytes(),
                    b"X-ONE" => b"1",
                    b"X-TWO" => b"a;b",
                    b"X-THREE" => b"",
                    _ => { fail(5); b"" }
                };
                check(val == want, 6);
            }
        }
        None => fail(7),
    }
    // what is read back
    match w.parse::<Calendar>() {
        Ok(d) => {
            match get(level, &d, name) {
                Some(q) => {
                    check(q.params().len() == k + 1, 8);
                    check(q.params().get("X-P").map(|x| x.value()) == Some(&v), 9);
                    check(q.params().get("X-P").map(|x| x.key()) == Some("X-P"), 10);
                    check(q.get_param_as("X-P", |x| Some(x.len())) == Some(v.len()), 11);
                    for (i, (key, val)) in fixed.iter().enumerate() {
                        if i < k {
                            check(q.params().get(*key).map(|x| x.value()) == Some(val), 12);
                        }
                    }
                    check(get(level, &c, name) == Some(q), 13);
                    cover(1);
                }
                None => fail(14),
            }
        }
        Err(_) => fail(15),
    }
}

/// params: chars of the key
/// parameter names are kept as well
fn h_param_key() {
    let k = string(param(0), &KEYCH);
    let p = Property::new("SUMMARY", "val").add_parameter(&k, "v:1").done();
    check(p.params().len() == 1 && p.params().get(&k).map(|x| x.key() == k && x.value() == "v:1") == Some(true), 5);
    // names that differ are different parameters
    let mut q = p.clone();
    q.add_parameter("X-a", "w");
    check(q.params().len() == if k == "X-a" { 1 } else { 2 } && q.params().get("X-a").map(|x| x.value()) == Some("w"), 6);
    let c = put(fork(2), p);
    let w = c.to_string();
    emit_wire(&w);
    match w.parse::<Calendar>() {
        Ok(d) => {
            let p = if d.components.is_empty() { get(0, &d, "SUMMARY") } else { get(1, &d, "SUMMARY") };
            match p {
                Some(q) => {
                    check(q.params().len() == 1 && q.params().get(&k).map(|x| x.value()) == Some("v:1"), 1);
                    check(q.value() == "val", 2);
                    cover(1);
                }
                None => fail(3),
            }
        }
        Err(_) => fail(4),
    }
}

/// params: chars, unicode?
/// a location refers to its venue
fn h_param_venue() {
    let u = text(param(0), &SAFE, param(1));
    let mut c = Calendar::new();
    c.push(Event::new().venue("Hall, 1", &u).done());
    c.push(Todo::new().venue("Hall, 1", &u).done());
    let w = c.to_string();
    emit_wire(&w);
    match w.parse::<Calendar>() {
        Ok(d) => {
            check(d.components.len() == 2, 1);
            for x in &d.components {
                let p = dynof(x).props().get("LOCATION");
                check(p.map(|p| p.value()) == Some("Hall, 1"), 2);
                check(p.and_then(|p| p.params().get("VVENUE")).map(|p| p.value()) == Some(&u), 3);
            }
            cover(1);
        }
        Err(_) => fail(4),
    }
}

/// params: chars of the value, unicode?, quoted on the wire?, position (0 first, 1 last)
/// parameters on the wire are read as RFC 5545 says
fn h_param_read() {
    let set = if param(2) == 1 { SAFE } else { SAFE.minus(Set::of(b";:,")) };
    let v = text(param(0), &set, param(1));
    let q = if param(2) == 1 { "\"" } else { "" };
    let par = [";X-P=", q, &v, q].concat();
    let rest = ";X-Q=\"1:2;3\";X-R=ä";
    let l = if param(3) == 0 { ["ATTENDEE", &par, rest, ":mailto:a@b;c,d\r\n"].concat() } else { ["ATTENDEE", rest, &par, ":mailto:a@b;c,d\r\n"].concat() };
    emit(l.as_bytes());
    match parser::Property::try_from(&*l) {
        Ok(p) => {
            check(p.name.as_str() == "ATTENDEE" && p.val.as_str() == "mailto:a@b;c,d" && p.params.len() == 3, 1);
            let (i, j) = if param(3) == 0 { (0, 1) } else { (2, 0) };
            check(p.params[i].key.as_str() == "X-P", 2);
            check(p.params[i].val.as_ref().map(|x| x.as_str()).unwrap_or("") == v, 3);
            check(p.params[j].val.as_ref().map(|x| x.as_str()) == Some("1:2;3"), 4);
            check(p.params[j + 1].val.as_ref().map(|x| x.as_str()) == Some("ä"), 5);
            cover(1);
        }
        Err(_) => fail(6),
    }
}

/// params: elements, chars, unicode?
/// lists of quoted parameter values are kept as they are, and so is what stands around them
fn h_param_list() {
    let n = 2 + fork(param(0) - 1);
    let at = fork(n);
    let mut raw = String::new();
    let mut any = false;
    for i in 0..n {
        if i > 0 { raw.push(','); }
        let quoted = fork(2) == 1;
        any |= quoted;
        let t = if i != at { ["mailto:a;b", "b,c", ""][fork(3)].to_string() } else { text(param(1), &SAFE, param(2)) };
        if quoted {
            raw.push_str(&["\"", &t, "\""].concat());
        } else {
            for b in t.bytes() { assume(b != b';' && b != b':'); }
            raw.push_str(&t);
        }
    }
    let first = fork(2) == 0;
    let rest = ";X-Q=\"1:2;3\";X-R=ä";
    let par = [";MEMBER=", &raw].concat();
    let l = ["ATTENDEE", if first { &par } else { rest }, if first { rest } else { &par }, ":mailto:a@b;c,d"].concat();
    let d = [&l, "\r\n"].concat();
    emit(d.as_bytes());
    match parser::Property::try_from(&*d) {
        Ok(p) => {
            check(p.name.as_str() == "ATTENDEE" && p.val.as_str() == "mailto:a@b;c,d" && p.params.len() == 3, 1);
            let (i, j) = if first { (0, 1) } else { (2, 0) };
            check(p.params[i].key.as_str() == "MEMBER" && p.params[i].val.as_ref().map(|x| x.as_str()) == Some(&raw), 2);
            check(p.params[j].val.as_ref().map(|x| x.as_str()) == Some("1:2;3") && p.params[j + 1].val.as_ref().map(|x| x.as_str()) == Some("ä"), 3);
            check(parser::unfold(&p.to_string()) == d, 4);
        }
        Err(_) => fail(5),
    }
    let doc = ["BEGIN:VCALENDAR\r\nBEGIN:VEVENT\r\nUID:1\r\nDTSTAMP:20240101T000000Z\r\n", &d, "END:VEVENT\r\nEND:VCALENDAR\r\n"].concat();
    match doc.parse::<Calendar>() {
        Ok(c) => {
            let p = match get(2, &c, "ATTENDEE") { Some(p) => p, None => return fail(6) };
            check(p.params().len() == 3 && p.value() == "mailto:a@b;c,d", 7);
            check(p.params().get("MEMBER").map(|x| x.value()) == Some(&raw) && p.params().get("X-Q").map(|x| x.value()) == Some("1:2;3") && p.params().get("X-R").map(|x| x.value()) == Some("ä"), 8);
            let w = c.to_string();
            let lines = match ref_lines(w.as_bytes()) { Some(l) => l, None => return fail(9) };
            let mut r = match named(&lines, "ATTENDEE").first().and_then(|l| ref_content_line(l)) { Some(r) => r, None => return fail(10) };
            r.params.sort();
            let mut want = match ref_content_line(l.as_bytes()) { Some(r) => r, None => return fail(11) };
            want.params.sort();
            check(r.params == want.params && r.value == want.value, 12);
            match w.parse::<Calendar>() {
                Ok(e) => {
                    check(e == c, 13);
                    cover(if any { 1 } else { 2 });
                }
                Err(_) => fail(14),
            }
        }
        Err(_) => fail(15),
    }
}
}
