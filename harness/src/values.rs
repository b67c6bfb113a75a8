//! Typed values: value types, numbers, enums, calendar metadata, values that are not TEXT
use crate::sx::*;
use crate::util::*;
use icalendar::*;

/// RFC 5545 8.3.2 (and RFC 7986, de-facto and VVENUE ones): properties whose default value type is TEXT
pub const TEXTS: [&str; 31] = [
    "CALSCALE", "METHOD", "PRODID", "VERSION", "CLASS", "COMMENT", "DESCRIPTION", "LOCATION", "STATUS", "SUMMARY", "TRANSP", "TZID", "TZNAME", "CONTACT", "RELATED-TO", "UID", "ACTION", "REQUEST-STATUS",
    "NAME", "X-WR-CALNAME", "X-WR-CALDESC", "TIMEZONE-ID", "X-WR-TIMEZONE", "STREET-ADDRESS", "EXTENDED-ADDRESS", "LOCALITY", "REGION", "COUNTRY", "POSTAL-CODE",
    // lists: commas are left out below
    "CATEGORIES", "RESOURCES",
];
use ValueType::*;
/// the other ones, and their value types
pub const OTHERS: [(&str, Option<ValueType>); 32] = [
    ("ATTACH", Some(Uri)), ("GEO", Some(Float)), ("PERCENT-COMPLETE", Some(Integer)), ("PRIORITY", Some(Integer)), ("COMPLETED", Some(DateTime)), ("DTEND", Some(DateTime)), ("DUE", Some(DateTime)),
    ("DTSTART", Some(DateTime)), ("DURATION", Some(Duration)), ("FREEBUSY", Some(Period)), ("TZOFFSETFROM", Some(UtcOffset)), ("TZOFFSETTO", Some(UtcOffset)), ("TZURL", Some(Uri)), ("ATTENDEE", Some(CalAddress)),
    ("ORGANIZER", Some(CalAddress)), ("RECURRENCE-ID", Some(DateTime)), ("URL", Some(Uri)), ("EXDATE", Some(DateTime)), ("RDATE", Some(DateTime)), ("RRULE", Some(Recur)), ("REPEAT", Some(Integer)), ("TRIGGER", Some(Duration)),
    ("CREATED", Some(DateTime)), ("DTSTAMP", Some(DateTime)), ("LAST-MODIFIED", Some(DateTime)), ("SEQUENCE", Some(Integer)),
    ("X-APPLE-STRUCTURED-LOCATION", None), ("X-NOTE", None), ("CONFERENCE", None), ("X", None), ("SUMMARY-2", None), ("X-SUMMARY", None),
];
/// RFC 5545 8.3.4
pub const TYPES: [(ValueType, &str); 14] = [
    (Binary, "BINARY"), (Boolean, "BOOLEAN"), (CalAddress, "CAL-ADDRESS"), (Date, "DATE"), (DateTime, "DATE-TIME"), (Duration, "DURATION"), (Float, "FLOAT"), (Integer, "INTEGER"), (Period, "PERIOD"),
    (Recur, "RECUR"), (Text, "TEXT"), (Time, "TIME"), (Uri, "URI"), (UtcOffset, "UTC-OFFSET"),
];
const NOEOL: Set = Set::range(32, 126).or(Set::of(b"\t"));
const LOOSE: Set = Set::range(32, 126).or(Set::of(b"\t\n"));

/// the property as it is found in the only component (or the calendar) of a document
fn found(c: &Calendar, level: usize, name: &str) -> Option<Property> {
    if level == 0 {
        return c.properties.iter().find(|p| p.key() == name).cloned();
    }
    let x = dynof(c.components.first()?);
    let x = if level == 3 { *x.kids().first()? } else { x };
    match x.props().get(name) {
        Some(p) => Some(p.clone()),
        None => {
            let v = x.multi().get(name)?;
            if v.len() == 1 { Some(v[0].clone()) } else { None }
        }
    }
}
/// a document with one content line at `level`: 0 calendar, 1 event, 2 to-do, 3 alarm, 4 venue, 5 unknown component
fn with_line(level: usize, line: &str) -> String {
    let (a, b) = match level {
        0 => ("", ""),
        1 => ("BEGIN:VEVENT\r\n", "END:VEVENT\r\n"),
        2 => ("BEGIN:VTODO\r\n", "END:VTODO\r\n"),
        3 => ("BEGIN:VEVENT\r\nBEGIN:VALARM\r\n", "END:VALARM\r\nEND:VEVENT\r\n"),
        4 => ("BEGIN:VVENUE\r\n", "END:VVENUE\r\n"),
        _ => ("BEGIN:X-OTHER\r\n", "END:X-OTHER\r\n"),
    };
    ["BEGIN:VCALENDAR\r\n", a, line, "\r\n", b, "END:VCALENDAR\r\n"].concat()
}
fn as_string(p: Property) -> String {
    match p.try_into() {
        Ok(s) => s,
        Err(_) => { fail(90); String::new() }
    }
}
/// value part of the only content line
fn value_of(w: &str) -> Option<Vec<u8>> {
    let l = ref_lines(w.as_bytes())?;
    if l.len() != 1 {
        return None;
    }
    Some(ref_content_line(&l[0])?.value)
}

crate::harnesses! {
/// params: chars, unicode?
/// TEXT properties are escaped when written and decoded when read, by any writer and reader
fn h_vt_text() {
    let i = fork(TEXTS.len());
    let name = TEXTS[i];
    let set = if i >= 29 { LOOSE.minus(Set::of(b",")) } else { LOOSE };
    let t = text(param(0), &set, param(1));
    let p = Property::new(name, &*t);
    check(p.value_type() == Some(Text), 1);
    let w = as_string(p);
    emit(w.as_bytes());
    match value_of(&w) {
        Some(v) => check(ref_text(&v) == Some(t.as_bytes().to_vec()), 2),
        None => fail(3),
    }
    let level = fork(6);
    match with_line(level, w.trim_end_matches("\r\n")).parse::<Calendar>() {
        Ok(c) => match found(&c, level, name) {
            Some(q) => {
                check(q.value() == t, 4);
                cover(1);
            }
            None => fail(5),
        },
        Err(_) => fail(6),
    }
    match parser::Property::try_from(&*w) {
        Ok(q) => {
            check(q.val.as_str() == t, 7);
            check(q.to_string() == w, 8);
        }
        Err(_) => fail(9),
    }
}

/// params: chars, unicode?
/// all other values are written and read as they are
fn h_vt_other() {
    let (name, ty) = OTHERS[fork(OTHERS.len())];
    let mut t = text(param(0), &NOEOL, param(1));
    if fork(2) == 1 {
        t = ["a", &t, "\\,\\;\\n"].concat();
    }
    let p = Property::new(name, &*t);
    check(p.value_type() == ty, 1);
    let w = as_string(p);
    emit(w.as_bytes());
    check(value_of(&w) == Some(t.as_bytes().to_vec()), 2);
    let level = fork(6);
    match with_line(level, w.trim_end_matches("\r\n")).parse::<Calendar>() {
        Ok(c) => match found(&c, level, name) {
            Some(q) => {
                check(q.value() == t, 4);
                cover(1);
            }
            None => fail(5),
        },
        Err(_) => fail(6),
    }
    match parser::Property::try_from(&*w) {
        Ok(q) => {
            check(q.val.as_str() == t, 7);
            check(q.to_string() == w, 8);
        }
        Err(_) => fail(9),
    }
}

/// params: chars, parameters in front
/// a VALUE parameter decides; one that is not known does not
fn h_vt_param() {
    let k = fork(4);
    let (name, ty) = [("SUMMARY", Some(Text)), ("URL", Some(Uri)), ("X-FOO", None), ("DTSTART", Some(DateTime))][k];
    let j = fork(17);
    let (ty, par) = if j < 14 { (Some(TYPES[j].0), TYPES[j].1) } else { (ty, ["X-TEXT", "TEXTS", ""][j - 14]) };
    let set = if ty == Some(Text) { LOOSE } else { NOEOL };
    let t = text(param(0), &set, 0);
    let mut p = Property::new(name, &*t);
    for n in 0..param(1) {
        p.add_parameter(["X-A", "LANGUAGE"][n % 2], "VALUE=TEXT");
    }
    if j < 14 && fork(2) == 1 {
        p.append_parameter(TYPES[j].0);
    } else {
        p.add_parameter("VALUE", par);
    }
    let p = p.done();
    check(p.value_type() == ty, 1);
    let w = as_string(p);
    match value_of(&w) {
        Some(v) => {
            if ty == Some(Text) {
                check(ref_text(&v) == Some(t.as_bytes().to_vec()), 2);
                cover(1);
            } else {
                check(v == t.as_bytes(), 3);
                cover(2);
            }
        }
        None => fail(4),
    }
    match w.parse::<Property>() {
        Ok(q) => check(q.value() == t && q.value_type() == ty, 5),
        Err(_) => fail(6),
    }
    let e = Event::new().append_property(Property::new(name, &*t).add_parameter("VALUE", par).done()).done();
    let mut c = Calendar::empty();
    c.push(e);
    match c.to_string().parse::<Calendar>() {
        Ok(d) => check(found(&d, 1, name).map(|q| q.value() == t && q.value_type() == ty) == Some(true), 7),
        Err(_) => fail(8),
    }
}

/// params: chars
/// names of the value types: exactly the fourteen of RFC 5545, both ways
fn h_vt_names() {
    let i = fork(16);
    if i < 14 {
        let (ty, n) = TYPES[i];
        let p = Parameter::from(ty);
        check(p.key() == "VALUE" && p.value() == n, 1);
        check(ValueType::try_from(p) == Ok(ty), 2);
        check(n.parse() == Ok(ty), 3);
        check(ValueType::try_from(Parameter::new("VALUES", n)) == Err(()) && ValueType::try_from(Parameter::new("TYPE", n)) == Err(()), 4);
        // almost
        let v = near(n, &PRINT);
        let want = TYPES.iter().find(|(_, m)| v == *m).map(|(t, _)| *t);
        check(v.parse::<ValueType>().ok() == want, 5);
        check(ValueType::try_from(Parameter::new("VALUE", &v)).ok() == want, 6);
        cover(1);
    } else {
        let v = string(param(0) + i - 14, &PRINT);
        let r = v.parse::<ValueType>();
        let mut want = None;
        for (t, n) in TYPES {
            if v == n { want = Some(t); }
        }
        check(r.ok() == want, 7);
        cover(2);
    }
}

/// names that are almost one of the table are not in it
fn h_vt_near() {
    let i = fork(TEXTS.len() + OTHERS.len());
    let name = near(if i < TEXTS.len() { TEXTS[i] } else { OTHERS[i - TEXTS.len()].0 }, &NAMECH.or(Set::of(b"_.")));
    assume(!name.is_empty() && !name.starts_with("END") && !name.starts_with("BEGIN"));
    // lower case is not claimed
    assume(!name.bytes().any(|b| b.is_ascii_lowercase()));
    let ty = if TEXTS.iter().any(|t| name == *t) { Some(Text) } else { OTHERS.iter().find(|o| name == o.0).and_then(|o| o.1) };
    let list = name == "CATEGORIES" || name == "RESOURCES";
    let (plain, wire) = if list { ("a;b\\n", "a\\;b\\\\n") } else { ("a,b;c\\n", "a\\,b\\;c\\\\n") };
    let p = Property::new(&*name, plain);
    check(p.value_type() == ty, 1);
    let want = [&*name, ":", if ty == Some(Text) { wire } else { plain }, "\r\n"].concat();
    let w = as_string(p);
    emit(w.as_bytes());
    check(w == want, 2);
    match parser::Property::try_from(&*w) {
        Ok(q) => {
            check(q.val.as_str() == plain && q.name.as_str() == name, 3);
            check(q.to_string() == w, 4);
            cover(1);
        }
        Err(_) => fail(5),
    }
}

/// params: component; offset of the numbers, how many times 256 of them
/// numbers come back as they were set
fn h_num_set() {
    let base = param(1) as u32;
    let x = base.wrapping_add(256 * fork(param(2)) as u32 + choose(256) as u32);
    let b = x as u8;
    let mut c = Calendar::new();
    match param(0) {
        0 => {
            let e = Event::new().priority(x).sequence(x).done();
            check(e.get_priority() == Some(x.min(10)) && e.get_sequence() == Some(x), 1);
            c.push(e);
        }
        1 => {
            assume(b <= 100);
            let e = Todo::new().priority(x).sequence(x).percent_complete(b).done();
            check(e.get_priority() == Some(x.min(10)) && e.get_sequence() == Some(x) && e.get_percent_complete() == Some(b), 2);
            c.push(e);
        }
        _ => {
            let e = Venue::new().priority(x).sequence(x).done();
            check(e.get_priority() == Some(x.min(10)) && e.get_sequence() == Some(x), 3);
            c.push(e);
        }
    }
    let w = c.to_string();
    emit_wire(&w);
    match w.parse::<Calendar>() {
        Ok(d) => {
            match &d.components[..] {
                [CalendarComponent::Event(e)] => check(e.get_priority() == Some(x.min(10)) && e.get_sequence() == Some(x) && param(0) == 0, 4),
                [CalendarComponent::Todo(e)] => check(e.get_priority() == Some(x.min(10)) && e.get_sequence() == Some(x) && e.get_percent_complete() == Some(b) && param(0) == 1, 5),
                [CalendarComponent::Venue(e)] => check(e.get_priority() == Some(x.min(10)) && e.get_sequence() == Some(x) && param(0) == 2, 6),
                _ => fail(7),
            }
            cover(1);
        }
        Err(_) => fail(8),
    }
}

/// params: chars, what is in front and what follows (0 nothing and digits, 1 "1" and digits, 2 "42949672" and digits, 3 nothing and anything, 4 "1" and anything)
/// decimal numbers are read; what is out of range or no number is not
fn h_num_get() {
    let pre = ["", "1", "42949672", "", "1"][param(1)];
    let set = if param(1) < 3 { DIGIT } else { PRINT };
    let t = [pre, &string(param(0), &set)].concat();
    // RFC 5545 3.3.8 integers without sign
    let mut v: Option<u64> = if t.is_empty() { None } else { Some(0) };
    for c in t.bytes() {
        v = match v {
            Some(x) if c.is_ascii_digit() => Some(x * 10 + (c - b'0') as u64),
            _ => None,
        };
    }
    if param(1) >= 3 {
        // a sign is allowed by RFC 5545, too
        assume(!(t.len() > 1 && (t.as_bytes()[0] == b'+' || t.as_bytes()[0] == b'-')));
    }
    emit(t.as_bytes());
    let d = ["BEGIN:VTODO\r\nPRIORITY:", &t, "\r\nSEQUENCE:", &t, "\r\nPERCENT-COMPLETE:", &t, "\r\nEND:VTODO\r\n"].concat();
    match d.parse::<CalendarComponent>() {
        Ok(CalendarComponent::Todo(e)) => {
            check(e.get_sequence().map(|x| x as u64) == v.filter(|x| *x <= u32::MAX as u64), 1);
            check(e.get_priority().map(|x| x as u64) == v.filter(|x| *x <= 10), 2);
            // more than 100 percent is not claimed
            if let Some(x) = v {
                if x <= 100 {
                    check(e.get_percent_complete().map(|x| x as u64) == v, 3);
                } else if x > 255 {
                    check(e.get_percent_complete().is_none(), 4);
                }
            } else {
                check(e.get_percent_complete().is_none(), 5);
            }
            cover(1);
        }
        _ => fail(6),
    }
}

/// status and class come back, with the names RFC 5545 gives them
fn h_enum_set() {
    let (cl, cn) = [(Class::Public, "PUBLIC"), (Class::Private, "PRIVATE"), (Class::Confidential, "CONFIDENTIAL")][fork(3)];
    let k = fork(7);
    let sn = ["TENTATIVE", "CONFIRMED", "CANCELLED", "NEEDS-ACTION", "COMPLETED", "IN-PROCESS", "CANCELLED"][k];
    let es = [EventStatus::Tentative, EventStatus::Confirmed, EventStatus::Cancelled];
    let ts = [TodoStatus::NeedsAction, TodoStatus::Completed, TodoStatus::InProcess, TodoStatus::Cancelled];
    let c: CalendarComponent = if k < 3 {
        let e = Event::new().class(cl).status(es[k]).done();
        check(e.get_class() == Some(cl) && e.get_status() == Some(es[k]), 1);
        e.into()
    } else {
        let e = Todo::new().class(cl).status(ts[k - 3]).done();
        check(e.get_class() == Some(cl) && e.get_status() == Some(ts[k - 3]), 2);
        e.into()
    };
    check(dynof(&c).prop("CLASS") == Some(cn) && dynof(&c).prop("STATUS") == Some(sn), 3);
    let mut cal = Calendar::new();
    cal.push(c);
    let v = Venue::new().class(cl).done();
    check(v.get_class() == Some(cl), 4);
    cal.push(v);
    let w = cal.to_string();
    emit_wire(&w);
    match w.parse::<Calendar>() {
        Ok(d) => {
            match &d.components[..] {
                [CalendarComponent::Event(e), CalendarComponent::Venue(v)] => check(k < 3 && e.get_class() == Some(cl) && e.get_status() == Some(es[k % 3]) && v.get_class() == Some(cl), 5),
                [CalendarComponent::Todo(e), CalendarComponent::Venue(v)] => check(k >= 3 && e.get_class() == Some(cl) && e.get_status() == Some(ts[(k + 1) % 4]) && v.get_class() == Some(cl), 6),
                _ => fail(7),
            }
            cover(1);
        }
        Err(_) => fail(8),
    }
}

/// params: which (0 one of the names with one char changed, 1 any chars), chars
/// other names are not taken for one of them
fn h_enum_get() {
    let names = ["PUBLIC", "PRIVATE", "CONFIDENTIAL", "TENTATIVE", "CONFIRMED", "CANCELLED", "NEEDS-ACTION", "COMPLETED", "IN-PROCESS"];
    let t = if param(0) == 0 {
        near(names[fork(names.len())], &PRINT.minus(Set::of(b",;\\")))
    } else {
        string(param(1), &PRINT.minus(Set::of(b",;\\")))
    };
    emit(t.as_bytes());
    let class = if t == "PUBLIC" { Some(Class::Public) } else if t == "PRIVATE" { Some(Class::Private) } else if t == "CONFIDENTIAL" { Some(Class::Confidential) } else { None };
    let es = if t == "TENTATIVE" { Some(EventStatus::Tentative) } else if t == "CONFIRMED" { Some(EventStatus::Confirmed) } else if t == "CANCELLED" { Some(EventStatus::Cancelled) } else { None };
    let ts = if t == "NEEDS-ACTION" { Some(TodoStatus::NeedsAction) } else if t == "COMPLETED" { Some(TodoStatus::Completed) } else if t == "IN-PROCESS" { Some(TodoStatus::InProcess) } else if t == "CANCELLED" { Some(TodoStatus::Cancelled) } else { None };
    let body = ["CLASS:", &t, "\r\nSTATUS:", &t, "\r\n"].concat();
    let e = ["BEGIN:VEVENT\r\n", &body, "END:VEVENT\r\n"].concat().parse::<CalendarComponent>();
    match e {
        Ok(CalendarComponent::Event(e)) => {
            check(e.get_class() == class, 1);
            check(e.get_status() == es, 2);
            check(e.property_value("STATUS") == Some(&t), 3);
        }
        _ => fail(4),
    }
    let e = ["BEGIN:VTODO\r\n", &body, "END:VTODO\r\n"].concat().parse::<CalendarComponent>();
    match e {
        Ok(CalendarComponent::Todo(e)) => {
            check(e.get_class() == class, 5);
            check(e.get_status() == ts, 6);
            cover(1);
        }
        _ => fail(7),
    }
}

/// params: chars, unicode?
/// calendar name, description and time zone: either property will do, the standard one first, wherever they are
fn h_meta() {
    let (a, b) = [("NAME", "X-WR-CALNAME"), ("DESCRIPTION", "X-WR-CALDESC"), ("TIMEZONE-ID", "X-WR-TIMEZONE")][fork(3)];
    let t = text(param(0), &LOOSE, param(1));
    let u = ["2", &t].concat();
    let mut c = Calendar::new();
    let k = fork(10);
    let mut set = |c: &mut Calendar, t: &str| {
        match a {
            "NAME" => c.name(t),
            "DESCRIPTION" => c.description(t),
            _ => c.timezone(t),
        };
    };
    match k {
        0 => {}
        7 => {
            // set again
            set(&mut c, &u);
            c.append_property(("X-KEEP", "1"));
            set(&mut c, &t);
        }
        8 => {
            // set over what has been read
            let d = ["BEGIN:VCALENDAR\nVERSION:2.0\nX-WR-CALNAME:old\n", b, ":old\nPRODID:ICALENDAR-RS\nX-KEEP:1\nCALSCALE:GREGORIAN\nEND:VCALENDAR\n"].concat();
            c = match d.parse() { Ok(c) => c, Err(_) => return fail(10) };
            if a != "NAME" { c.properties.retain(|p| p.key() != "X-WR-CALNAME"); }
            set(&mut c, &t);
        }
        9 => {
            c.append_property((a, "old")).append_property((b, "old")).append_property(("X-KEEP", "1")).append_property((b, "older")).append_property((a, "older"));
            set(&mut c, &t);
        }
        1 => { c.append_property((a, &*t)); }
        2 => { c.append_property((b, &*t)); }
        3 => { c.append_property((a, &*t)).append_property((b, &*u)); }
        4 => { c.append_property((b, &*u)).append_property((a, &*t)); }
        5 => { c.append_property((a, &*t)).append_property((a, &*u)); }
        _ => set(&mut c, &t),
    }
    if k >= 6 {
        // other applications read the one or the other
        check(c.property_value(a) == Some(&t) && c.property_value(b) == Some(&t), 1);
        for n in [a, b] {
            check(c.properties.iter().filter(|p| p.key() == n).count() == 1, 7);
        }
        if k > 6 { check(c.property_value("X-KEEP") == Some("1") && c.properties.len() == 6, 8); }
    }
    let want = if k == 0 { None } else { Some(&*t) };
    // neighbours that must not be taken for it
    let near = fork(3);
    if near == 1 {
        c.append_property(("X-NAME", "no")).append_property(("SUMMARY", "no")).append_property(("TZID", "no")).append_property(("X-WR-RELCALID", "no"));
    } else if near == 2 {
        c.push(Event::new().append_property(("NAME", "no")).append_property(("TIMEZONE-ID", "no")).description("no").done());
    }
    let get = |c: &Calendar| -> Option<String> {
        let g = [c.get_name(), c.get_description(), c.get_timezone()];
        let i = match a { "NAME" => 0, "DESCRIPTION" => 1, _ => 2 };
        for (j, x) in g.iter().enumerate() {
            if j != i { check(x.is_none(), 2); }
        }
        g[i].map(|x| x.to_string())
    };
    check(get(&c).as_deref() == want, 3);
    let w = c.to_string();
    emit_wire(&w);
    match w.parse::<Calendar>() {
        Ok(d) => {
            check(get(&d).as_deref() == want, 4);
            check(d.property_value("VERSION") == Some("2.0") && d.property_value("PRODID") == Some("ICALENDAR-RS") && d.property_value("CALSCALE") == Some("GREGORIAN"), 5);
            cover(1);
        }
        Err(_) => fail(6),
    }
}

/// params: chars, unicode?
/// values that are no TEXT are handed out as they were set (RFC 5545 URI, RECUR, GEO, CAL-ADDRESS, X- values)
fn h_verbatim() {
    let t = text(param(0), &NOEOL, param(1));
    let (pre, post) = [("", ""), ("https://a.example/?q=", "&x=\\n;y,z\"\\\\"), ("FREQ=YEARLY;BYDAY=1SU,2SU;UNTIL=", ";"), ("mailto:", "@example.com")][fork(4)];
    let v = [pre, &t, post].concat();
    let mut c = Calendar::new();
    c.append_property(("X-CAL", &*v));
    c.push(Event::new().url(&v).append_property(("RRULE", &*v)).append_property(("GEO", &*v)).append_property(("X-EV", &*v)).add_multi_property("ATTACH", &v).add_multi_property("ATTACH", "cid:2").done());
    c.push(Todo::new().url(&v).append_property(("ORGANIZER", &*v)).append_property(("x-lower", &*v)).done());
    c.push(Venue::new().url(&v).done());
    let w = c.to_string();
    emit_wire(&w);
    let lines = match ref_lines(w.as_bytes()) { Some(l) => l, None => return fail(1) };
    let mut n = 0;
    for k in ["URL:", "RRULE:", "GEO:", "X-EV:", "ORGANIZER:", "x-lower:", "X-CAL:"] {
        for l in &lines {
            if starts(l, k.as_bytes()) {
                n += 1;
                check(&l[k.len()..] == v.as_bytes(), 2);
            }
        }
    }
    check(n == 9, 3);
    match w.parse::<Calendar>() {
        Ok(d) => {
            check(d.property_value("X-CAL") == Some(&v), 4);
            match &d.components[..] {
                [CalendarComponent::Event(e), CalendarComponent::Todo(f), CalendarComponent::Venue(g)] => {
                    check(e.get_url() == Some(&v) && f.get_url() == Some(&v) && g.get_url() == Some(&v), 5);
                    check(e.property_value("RRULE") == Some(&v) && e.property_value("GEO") == Some(&v) && e.property_value("X-EV") == Some(&v), 6);
                    check(f.property_value("ORGANIZER") == Some(&v) && f.property_value("x-lower") == Some(&v), 7);
                    let m = e.multi_properties().get("ATTACH");
                    check(m.map(|m| m.len() == 2 && m[0].value() == v && m[1].value() == "cid:2") == Some(true), 8);
                    cover(1);
                }
                _ => fail(9),
            }
        }
        Err(_) => fail(10),
    }
}
}
