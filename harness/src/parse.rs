use crate::sx::*;
use crate::util::*;
use icalendar::parser::{read_calendar, read_calendar_simple, read_components, unfold};
use icalendar::*;
use std::convert::TryFrom;

fn use_component(x: &dyn DynComp) {
    let _ = x.kind();
    for (k, p) in x.props() {
        use_property(k, p);
    }
    for v in x.multi().values() {
        for p in v {
            use_property(p.key(), p);
        }
    }
    for c in x.kids() {
        use_component(c);
    }
}
fn use_property(_k: &str, p: &Property) {
    let _ = p.value_type();
    let _ = DatePerhapsTime::from_property(p).map(|d| d.date_naive());
    let _ = Trigger::try_from(p);
}
fn use_calendar(c: &Calendar) {
    let _ = (c.get_name(), c.get_description(), c.get_timezone(), c.get_ttl());
    for p in &c.properties {
        use_property(p.key(), p);
    }
    for x in &c.components {
        match x {
            CalendarComponent::Event(e) => {
                let _ = (e.get_status(), e.get_start(), e.get_end(), e.get_timestamp(), e.get_priority(), e.get_sequence(), e.get_class(), e.get_last_modified(), e.get_created());
            }
            CalendarComponent::Todo(t) => {
                let _ = (t.get_percent_complete(), t.get_status(), t.get_due(), t.get_completed());
            }
            _ => {}
        }
        use_component(dynof(x));
    }
}
/// every way to read a document
fn read_all(t: &str) {
    let u = unfold(t);
    for d in [t, &u] {
        if let Ok(c) = read_calendar(d) {
            let o = c.to_string();
            let _ = read_calendar(&o);
            let c = Calendar::from(c);
            use_calendar(&c);
            let _ = c.to_string();
        }
    }
    if let Ok(c) = t.parse::<Calendar>() {
        let _ = c.to_string();
    }
}
fn read_parts(t: &str) {
    let _ = read_calendar_simple(t).map(|c| c.len());
    if let Ok(c) = read_components(t) {
        for x in &c {
            for p in &x.properties {
                let _ = DatePerhapsTime::try_from(p);
            }
            let _ = x.find_prop("SUMMARY");
        }
        use_calendar(&Calendar::from(c));
    }
    if let Ok(c) = t.parse::<CalendarComponent>() {
        use_component(dynof(&c));
    }
    if let Ok(p) = t.parse::<Property>() {
        use_property(p.key(), &p);
        let _: Result<String, _> = p.try_into();
    }
    let _ = parser::Component::try_from(t);
    let _ = parser::Property::try_from(t);
    let _ = parser::Parameter::try_from(t);
    let _ = t.parse::<CalendarDateTime>();
    let _ = t.parse::<ValueType>();
}

crate::harnesses! {
/// params: skeleton, chars, unicode?, also the part readers?
/// no text makes the library panic or loop
fn h_total() {
    let t = text(param(1), &ASCII, param(2));
    let d = match param(0) {
        0 => t,
        1 => ["BEGIN:", &t].concat(),
        2 => ["BEGIN:VEVENT\n", &t, "\nEND:VEVENT\n"].concat(),
        3 => ["BEGIN:VEVENT\r\nA", &t, "B:C\r\nEND:VEVENT\r\n"].concat(),
        4 => ["BEGIN:VEVENT\nA;B=", &t, ":C\nEND:VEVENT\n"].concat(),
        5 => ["BEGIN:VEVENT\nSUMMARY:", &t, "\nEND:VEVENT"].concat(),
        6 => ["BEGIN:VEVENT\nEND:VEVENT", &t].concat(),
        7 => ["BEGIN:VEVENT\nBEGIN:X\nEND:", &t, "\nEND:VEVENT"].concat(),
        8 => ["BEGIN:A\nDTSTART:", &t, "\nTRIGGER:", &t, "\nPRIORITY:", &t, "\nEND:A"].concat(),
        9 => ["BEGIN:VTODO\nDUE:2024", &t, "T101010\nDTSTAMP:20240101T1010", &t, "Z\nPERCENT-COMPLETE:1", &t, "\nEND:VTODO"].concat(),
        10 => ["BEGIN:VCALENDAR\nREFRESH-INTERVAL:P", &t, "\nX-PUBLISHED-TTL:PT1", &t, "\nBEGIN:VEVENT\nTRIGGER:-P", &t, "D\nEND:VEVENT\nEND:VCALENDAR"].concat(),
        11 => ["BEGIN:VEVENT\nSUMMARY:aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", &t, "aa\nEND:VEVENT\n"].concat(),
        12 => ["BEGIN:VCALENDAR\n", &t, "BEGIN:X\nEND:X\n", &t, "END:VCALENDAR\n"].concat(),
        _ => ["EN", &t].concat(),
    };
    read_all(&d);
    if param(3) == 1 {
        read_parts(&d);
    }
    emit(d.as_bytes());
    cover(1);
}

/// params: place (12 or more: all), least digits, most digits
/// numbers of any length, and numbers that do not fit, where numbers are expected
fn h_total_num() {
    let k = if param(0) >= 12 { fork(15) } else { param(0) };
    let n = param(1) + fork(param(2) - param(1) + 1);
    let mut v = ["0", "1", "9"][fork(3)].repeat(n).into_bytes();
    if n > 0 { v[[0, n / 2, n - 1][fork(3)]] = byte(&DIGIT); }
    let v = s(v);
    let sign = ["", "-", "+"][fork(3)];
    let d = match k {
        0 => ["BEGIN:VCALENDAR\nREFRESH-INTERVAL:", sign, "P", &v, "W\nEND:VCALENDAR\n"].concat(),
        1 => ["BEGIN:VCALENDAR\nX-PUBLISHED-TTL:", sign, "P", &v, "DT", &v, "H\nEND:VCALENDAR\n"].concat(),
        2 => ["BEGIN:VALARM\nTRIGGER:", sign, "PT", &v, "H", &v, "M", &v, "S\nDURATION:PT", &v, "S\nREPEAT:", &v, "\nEND:VALARM\n"].concat(),
        3 => ["BEGIN:VALARM\nTRIGGER:", sign, "P", &v, "Y", &v, "M", &v, "D\nEND:VALARM\n"].concat(),
        4 => ["BEGIN:VALARM\nTRIGGER;RELATED=END:", sign, "PT0.", &v, "S\nEND:VALARM\n"].concat(),
        5 => ["BEGIN:VEVENT\nPRIORITY:", sign, &v, "\nSEQUENCE:", sign, &v, "\nEND:VEVENT\n"].concat(),
        6 => ["BEGIN:VTODO\nPERCENT-COMPLETE:", sign, &v, "\nPRIORITY:", &v, "\nEND:VTODO\n"].concat(),
        7 => ["BEGIN:VEVENT\nDTSTART:", sign, &v, "\nDTEND;VALUE=DATE:", sign, &v, "\nEND:VEVENT\n"].concat(),
        8 => ["BEGIN:VEVENT\nDTSTART:", sign, &v, "0101T000000\nDTEND;VALUE=DATE:", sign, &v, "0101\nDTSTAMP:", sign, &v, "0101T000000Z\nEND:VEVENT\n"].concat(),
        9 => ["BEGIN:VEVENT\nDTSTART;TZID=Europe/Berlin:20240101T", &v, "\nDTEND:20240101T", &v, "Z\nCREATED:2024", &v, "T000000Z\nEND:VEVENT\n"].concat(),
        10 => ["BEGIN:VTODO\nDUE:", &v, "T", &v, "\nCOMPLETED:", &v, "T", &v, "Z\nLAST-MODIFIED:", &v, "T", &v, "Z\nEND:VTODO\n"].concat(),
        11 => ["BEGIN:VCALENDAR\nREFRESH-INTERVAL:", sign, "P", &v, "Y", &v, "M", &v, "DT", &v, "S\nEND:VCALENDAR\n"].concat(),
        12 => ["BEGIN:VCALENDAR\nREFRESH-INTERVAL:x\nX-PUBLISHED-TTL:", sign, "P", &v, "Y\nEND:VCALENDAR\n"].concat(),
        13 => ["BEGIN:VCALENDAR\nREFRESH-INTERVAL:", sign, "PT", &v, "H", &v, "M\nX-PUBLISHED-TTL:", sign, "PT0.", &v, "S\nEND:VCALENDAR\n"].concat(),
        _ => ["BEGIN:VALARM\nTRIGGER;VALUE=DATE-TIME:", sign, &v, "T", &v, "Z\nEND:VALARM\n"].concat(),
    };
    emit(d.as_bytes());
    read_all(&d);
    cover(1);
}

/// params: levels
/// however deep a document is nested, reading it returns
fn h_deep() {
    let n = param(0);
    let b = ["BEGIN:A\n", "BEGIN:VALARM\r\nX:1\r\n", "BEGIN:A\n\nBEGIN:B\nEND:B\n"][fork(3)];
    let e = if b.len() == 8 || b.len() > 25 { "END:A\n" } else { "END:VALARM\n" };
    let mut d = b.repeat(n);
    match fork(3) {
        0 => {}
        1 => d = [d, e.repeat(n)].concat(),
        _ => d = ["BEGIN:VCALENDAR\n", &d, &e.repeat(n), "END:VCALENDAR\n"].concat(),
    }
    emit(&d.as_bytes()[..20.min(d.len())]);
    match fork(3) {
        0 => read_all(&d),
        1 => read_parts(&d),
        _ => { let _ = read_components(&d).map(|c| c.clone() == c); }
    }
    cover(1);
}

/// params: skeleton, chars, unicode?
/// what the parser's types write is read back as the same tree
fn h_reser() {
    let safe = PRINT.or(Set::of(b"\t")).minus(Set::of(b"\""));
    let t = match param(0) {
        0 | 1 | 2 | 3 | 4 | 11 => text(param(1), &PRINT.or(Set::of(b"\t")), param(2)),
        5 | 6 | 10 => text(param(1), &safe, param(2)),
        7 => text(param(1), &safe.minus(Set::of(b":;")), param(2)),
        _ => string(param(1), &NAMECH.or(Set::range(b'a', b'z')).or(Set::of(b"_./"))),
    };
    let d = match param(0) {
        0 => ["BEGIN:VEVENT\r\nSUMMARY:", &t, "\r\nX-A:1\r\nEND:VEVENT\r\n"].concat(),
        1 => ["BEGIN:VCALENDAR\r\nBEGIN:VEVENT\r\nURL:", &t, "\r\nX-A:", &t, "\r\nEND:VEVENT\r\nEND:VCALENDAR\r\n"].concat(),
        2 => ["BEGIN:VCALENDAR\r\nX-WR-CALNAME:", &t, "\r\nX-A;VALUE=TEXT:", &t, "\r\nEND:VCALENDAR\r\n"].concat(),
        3 => ["BEGIN:VEVENT\r\nBEGIN:VALARM\r\nDESCRIPTION;VALUE=URI:", &t, "\r\nEND:VALARM\r\nEND:VEVENT\r\n"].concat(),
        4 => ["BEGIN:VEVENT\r\nCATEGORIES:A,", &t, "\r\nCATEGORIES:", &t, "\r\nCOMMENT:", &t, "\r\nEND:VEVENT\r\n"].concat(),
        5 => ["BEGIN:VEVENT\r\nATTENDEE;A=1;CN=\"", &t, "\";B:x\r\nEND:VEVENT\r\n"].concat(),
        6 => ["BEGIN:VCALENDAR\r\nX-Y;CN=\"a", &t, "\";B=;C=\"d:e\":", &t, "\r\nEND:VCALENDAR\r\n"].concat(),
        7 => ["BEGIN:VEVENT\r\nATTENDEE;A=1;CN=", &t, ";VALUE=", &t, ":x\r\nEND:VEVENT\r\n"].concat(),
        8 => ["BEGIN:X", &t, "\r\nX", &t, ";P", &t, "=1;Q", &t, ":x\r\nBEGIN:Y", &t, "\r\nEND:Y", &t, "\r\nEND:X", &t, "\r\nBEGIN:Z\r\nEND:Z\r\n"].concat(),
        10 => {
            // parameters of the same name, equal ones and such without a value
            let mut l = String::from("BEGIN:VEVENT\r\nATTENDEE");
            for _ in 0..3 {
                match fork(5) {
                    0 => l.push_str(&[";A=\"", &t, "\""].concat()),
                    1 => l.push_str(";A=1"),
                    2 => l.push_str(";B=1,\"2;3\",4"),
                    3 => l.push_str(";A"),
                    _ => l.push_str(";VALUE=TEXT"),
                }
            }
            [&l, ":x,y\r\nEND:VEVENT\r\n"].concat()
        }
        11 => {
            // properties and components of the same name, equal ones too
            let mut l = String::from("BEGIN:VEVENT\r\n");
            for _ in 0..4 {
                match fork(5) {
                    0 => l.push_str(&["SUMMARY:", &t, "\r\n"].concat()),
                    1 => l.push_str("SUMMARY:1\r\n"),
                    2 => l.push_str("COMMENT:1\r\n"),
                    3 => l.push_str("BEGIN:VALARM\r\nX-A:1\r\nEND:VALARM\r\n"),
                    _ => l.push_str(&["BEGIN:VALARM\r\nX-A:", &t, "\r\nEND:VALARM\r\n"].concat()),
                }
            }
            [&l, "END:VEVENT\r\n"].concat()
        }
        _ => ["BEGIN:VEVENT\r\nX-NOVALUE\r\nX", &t, "\r\nX-AFTER:1\r\nEND:VEVENT\r\n"].concat(),
    };
    emit(d.as_bytes());
    let a = match read_calendar(&d) { Ok(c) => c, Err(_) => return fail(1) };
    check(!a.components.is_empty() || !a.properties.is_empty(), 2);
    let o = a.to_string();
    emit(o.as_bytes());
    let u = unfold(&o);
    match read_calendar(&u) {
        Ok(b) => {
            check(a.properties == b.properties, 3);
            check(a.components == b.components, 4);
            cover(1);
        }
        Err(_) => fail(5),
    }
    // single properties as well
    for c in &a.components {
        for p in &c.properties {
            let o = unfold(&p.to_string());
            match parser::Property::try_from(&*o) {
                Ok(q) => check(&q == p, 6),
                Err(_) => fail(7),
            }
        }
    }
}

/// params: chars of the first name, chars of the second name, nested?
/// END has to name the component it ends
fn h_end() {
    let set = NAMECH.or(Set::of(b"_"));
    let a = string(param(0), &set);
    let b = string(param(1), &set);
    let d = match param(2) {
        0 => ["BEGIN:", &a, "\nX:1\nEND:", &b, "\n"].concat(),
        1 => ["BEGIN:Q\nBEGIN:", &a, "\r\nEND:", &b, "\r\nEND:Q\n"].concat(),
        // the innermost component has to be closed first
        _ => ["BEGIN:", &a, "\nBEGIN:", &b, "\nEND:", &a, "\nEND:", &b, "\n"].concat(),
    };
    emit(d.as_bytes());
    let r = read_components(&d);
    let ok = match &r {
        Ok(c) => c.len() == 1,
        Err(_) => false,
    };
    check(ok == (a == b), 1);
    check(read_calendar(&d).is_ok() == r.is_ok(), 2);
    check(d.parse::<Calendar>().is_ok() == r.is_ok(), 3);
    check(d.parse::<CalendarComponent>().is_ok() == r.is_ok(), 4);
    check(read_calendar_simple(&d).is_ok() == r.is_ok(), 5);
    if ok {
        cover(1);
    } else {
        cover(2);
    }
}

/// params: chars, component name (0 A, 1 VEVENT)
/// nothing but an END line ends a component
fn h_end_line() {
    let name = ["A", "VEVENT"][param(1)];
    let t = string(param(0), &ASCII.minus(Set::of(b"\r\n")));
    let d = match fork(2) {
        0 => ["BEGIN:", name, "\n", &t, name, "\n"].concat(),
        _ => ["BEGIN:Q\nBEGIN:", name, "\r\nX:1\r\n", &t, name, "\r\nEND:Q\n"].concat(),
    };
    emit(d.as_bytes());
    let ends = t.eq_ignore_ascii_case("END:");
    let r = read_components(&d);
    check(matches!(&r, Ok(c) if !c.is_empty()) == ends, 1);
    let whole = match read_calendar(&d) { Ok(c) => !c.components.is_empty() || !c.properties.is_empty(), Err(_) => false };
    check(whole == ends, 2);
    check(matches!(&d.parse::<Calendar>(), Ok(c) if !c.components.is_empty()) == ends, 3);
    check(d.parse::<CalendarComponent>().is_ok() == ends, 4);
    check(matches!(&read_calendar_simple(&d), Ok(c) if !c.is_empty()) == ends, 5);
    cover(if ends { 1 } else { 2 });
}

/// params: document
/// a component is reported only if its END has been read
fn h_cut() {
    let d = match param(0) {
        0 => "BEGIN:VCALENDAR\nVERSION:2.0\nBEGIN:VEVENT\nSUMMARY:x\nEND:VEVENT\nEND:VCALENDAR\n",
        1 => "BEGIN:VEVENT\r\nBEGIN:VALARM\r\nTRIGGER;RELATED=START:PT5M\r\nEND:VALARM\r\nUID:1\r\nEND:VEVENT\r\n",
        _ => "BEGIN:A\nBEGIN:B\nBEGIN:C\nEND:C\nEND:B\nX-Y;Z=\"a;b\":c\nEND:A",
    };
    let n = d.trim_end().len();
    let k = fork(n + 1);
    // cut within the first line nothing has begun yet; cut from there on the component is never closed
    assume(k >= 8);
    let t = &d[..k];
    emit(t.as_bytes());
    if k == n {
        match (read_components(t), t.parse::<CalendarComponent>()) {
            (Ok(c), Ok(_)) => check(c.len() == 1, 1),
            _ => fail(2),
        }
        cover(1);
        return;
    }
    // there is no component to report, and asking for one is an error
    check(read_components(t).map(|c| c.is_empty()).unwrap_or(true), 3);
    check(read_calendar(t).map(|c| c.components.is_empty() && c.properties.is_empty()).unwrap_or(true), 4);
    check(t.parse::<Calendar>().map(|c| c.components.is_empty() && c.properties.is_empty()).unwrap_or(true), 5);
    check(t.parse::<CalendarComponent>().is_err(), 6);
    check(parser::Component::try_from(t).is_err(), 7);
    cover(2);
}

/// params: most roots
/// all root components are read, in order; a VCALENDAR root first in line is the calendar
fn h_roots() {
    let n = fork(param(0) + 1);
    let kinds = ["VEVENT", "VTODO", "VVENUE", "X-OTHER"];
    let mut d = String::new();
    let mut want: Vec<(usize, usize)> = vec![];
    for i in 0..n {
        let k = fork(4);
        let e = ["\n", "\r\n"][fork(2)];
        for _ in 0..fork(2) {
            d.push_str(e);
        }
        for p in ["BEGIN:", kinds[k], e, "UID:", ["a", "b", "c", "d", "e"][i], e, "END:", kinds[k], e] {
            d.push_str(p);
        }
        want.push((k, i));
    }
    emit(d.as_bytes());
    match read_components(&d) {
        Ok(c) => {
            check(c.len() == n, 1);
            for (x, (k, i)) in c.iter().zip(&want) {
                check(x.name == kinds[*k], 2);
                check(x.find_prop("UID").map(|p| p.val.as_str()) == Some(["a", "b", "c", "d", "e"][*i]), 3);
            }
            let v = Calendar::from(c);
            check(v.components.len() == n, 4);
        }
        Err(_) => fail(5),
    }
    match read_calendar_simple(&d) {
        Ok(c) => check(c.len() == n, 6),
        Err(_) => fail(7),
    }
    match d.parse::<Calendar>() {
        Ok(c) => {
            check(c.components.len() == n, 8);
            for (x, (k, i)) in c.components.iter().zip(&want) {
                let kind = match x {
                    CalendarComponent::Event(_) => 0,
                    CalendarComponent::Todo(_) => 1,
                    CalendarComponent::Venue(_) => 2,
                    _ => 3,
                };
                check(kind == *k, 9);
                check(dynof(x).prop("UID") == Some(["a", "b", "c", "d", "e"][*i]), 10);
                check(dynof(x).kind() == kinds[*k], 11);
            }
            cover(1);
        }
        Err(_) => fail(12),
    }
}

/// params: skeleton, chars, unicode?
/// the ways to read a document agree with each other
fn h_agree() {
    let t = text(param(1), &ASCII, param(2));
    let d = match param(0) {
        0 => ["BEGIN:VCALENDAR\nX-A:", &t, "\nBEGIN:VEVENT\nSUMMARY:", &t, "\nEND:VEVENT\nBEGIN:VTODO\nEND:VTODO\nEND:VCALENDAR\n"].concat(),
        1 => ["BEGIN:VEVENT\r\nCOMMENT;X-A=", &t, ":b\r\nCOMMENT:c\r\nBEGIN:VALARM\r\nX:", &t, "\r\nEND:VALARM\r\nEND:VEVENT\r\n"].concat(),
        2 => ["BEGIN:", &t, "\nA:B\nEND:", &t, "\nBEGIN:VTODO\nEND:VTODO"].concat(),
        _ => {
            // a first root whose name is nearly VCALENDAR
            let mut n = b"VCALENDAR".to_vec();
            match fork(3) {
                0 => n.extend_from_slice(t.as_bytes()),
                1 => {
                    let i = fork(n.len());
                    n[i] = byte(&ASCII);
                }
                _ => n.truncate(fork(n.len())),
            }
            let n = s(n);
            ["BEGIN:", &n, "\nA:B\nBEGIN:VEVENT\nEND:VEVENT\nEND:", &n, "\nBEGIN:VTODO\nEND:VTODO\n"].concat()
        }
    };
    emit(d.as_bytes());
    let u = unfold(&d);
    let a = read_components(&u);
    let b = read_calendar(&u);
    let c = d.parse::<Calendar>();
    let e = read_calendar_simple(&u);
    check(a.is_ok() == b.is_ok() && b.is_ok() == c.is_ok() && c.is_ok() == e.is_ok(), 1);
    if let (Ok(a), Ok(b), Ok(c), Ok(e)) = (a, b, c, e) {
        check(a == e, 2);
        if a.len() > 0 && a[0].name == "VCALENDAR" {
            check(a[0].components == b.components && a[0].properties == b.properties, 3);
        } else {
            check(a == b.components && b.properties.is_empty(), 4);
        }
        let v = Calendar::from(b);
        check(v == c, 5);
        let w = Calendar::from(a.clone());
        check(w.components == c.components, 6);
        if a.len() > 0 && a[0].name == "VCALENDAR" {
            check(w == c, 11);
        }
        if let Some(x) = a.first() {
            match d.parse::<CalendarComponent>() {
                Ok(y) => check(y == CalendarComponent::from(x.clone()), 7),
                Err(_) => fail(8),
            }
            match parser::Component::try_from(&*u) {
                Ok(y) => check(&y == x, 9),
                Err(_) => fail(10),
            }
        }
        cover(1);
    } else {
        cover(2);
    }
}
}
