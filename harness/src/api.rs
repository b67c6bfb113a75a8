//! Other programs' calendars read, changed and written through the typed interface; the rest of the public interface
use crate::sx::*;
use crate::util::*;
use crate::values::{TEXTS, TYPES};
use icalendar::*;

/// a content line as it is meant: name, parameters in order of their names, value (decoded if it is TEXT)
#[derive(PartialEq, Clone)]
struct Meant {
    name: Vec<u8>,
    params: Vec<(Vec<u8>, Vec<u8>)>,
    value: Vec<u8>,
}
fn meant(l: &[u8]) -> Option<Meant> {
    let r = ref_content_line(l)?;
    let mut params = r.params;
    params.sort();
    let vt = params.iter().find(|p| p.0 == b"VALUE").and_then(|p| TYPES.iter().find(|t| t.1.as_bytes() == p.1));
    let text = match vt {
        Some((t, _)) => *t == ValueType::Text,
        None => TEXTS.iter().any(|t| t.as_bytes() == r.name),
    };
    // lists of texts
    let list = r.name == b"CATEGORIES" || r.name == b"RESOURCES";
    let value = if text && list { ref_list(&r.value)? } else if text { ref_text(&r.value)? } else { r.value };
    Some(Meant { name: r.name, params, value })
}
/// the texts of a list, between commas
fn ref_list(v: &[u8]) -> Option<Vec<u8>> {
    let mut o = vec![];
    let mut i = 0;
    let mut from = 0;
    while i <= v.len() {
        if i == v.len() || v[i] == b',' {
            if from > 0 { o.push(b','); }
            o.extend_from_slice(&ref_text(&v[from..i])?);
            from = i + 1;
        } else if v[i] == b'\\' {
            // a comma in a text of a list is none of ours
            if i + 1 < v.len() && v[i + 1] == b',' { return None; }
            i += 1;
        }
        i += 1;
    }
    Some(o)
}
#[derive(PartialEq, Clone)]
struct MTree {
    name: Vec<u8>,
    props: Vec<Meant>,
    kids: Vec<MTree>,
}
impl MTree {
    fn of(t: &Tree) -> Option<MTree> {
        let mut props = vec![];
        for l in &t.props {
            props.push(meant(l)?);
        }
        let mut kids = vec![];
        for k in &t.kids {
            kids.push(MTree::of(k)?);
        }
        Some(MTree { name: t.name.clone(), props, kids })
    }
    fn has(&self, n: &[u8]) -> bool {
        self.props.iter().any(|p| p.name == n)
    }
    /// what writing adds and reorders: UID and DTSTAMP of components that have none; the order of properties of different names
    fn like(&self, got: &MTree, root: bool) -> bool {
        let mut a = self.props.clone();
        let mut b = got.props.clone();
        if !root {
            for n in [&b"UID"[..], b"DTSTAMP"] {
                if !self.has(n) {
                    b.retain(|p| p.name != n);
                }
            }
            a.sort_by(|x, y| x.name.cmp(&y.name));
            b.sort_by(|x, y| x.name.cmp(&y.name));
        }
        self.name == got.name && a == b && self.kids.len() == got.kids.len() && self.kids.iter().zip(&got.kids).all(|(x, y)| x.like(y, false))
    }
    fn set(&mut self, n: &str, v: &str) {
        self.props.retain(|p| p.name != n.as_bytes());
        self.props.push(Meant { name: n.into(), params: vec![], value: v.into() });
    }
}
fn mtree(w: &str) -> Option<MTree> {
    let l = ref_lines(w.as_bytes())?;
    let t = ref_tree(&l)?;
    if t.len() != 1 {
        return None;
    }
    MTree::of(&t[0])
}

crate::harnesses! {
/// params: document, chars, unicode?, what is changed (0 nothing .. 9; 10 all of them)
/// reading, changing and writing another program's calendar leaves everything else in it as it was
fn h_rewrite() {
    // TEXT on the wire: any char verbatim, or an escape
    let plain = PRINT.or(Set::of(b"\t")).minus(Set::of(b"\\,;"));
    let which = fork(3);
    let t = if which == 0 {
        [["", "a\\, b\\;\\\\n", "\\n\\N\\\\\\\\"][fork(3)], &text(param(1), &plain, param(2) * 2)].concat()
    } else {
        "T\\\\n\\, é".to_string()
    };
    let v = if which == 1 { text(param(1), &PRINT.or(Set::of(b"\t")), param(2)) } else { "v\\,;n:\"é".to_string() };
    let q = if which == 2 { text(param(1), &PRINT.minus(Set::of(b"\"")), param(2)) } else { "q;:\\, é".to_string() };
    let ids = "UID:1\r\nDTSTAMP:20240101T000000Z\r\n";
    let d = match param(0) {
        0 => ["BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:-//Other//EN\r\nMETHOD:PUBLISH\r\nX-WR-CALNAME:", &t, "\r\nX-V:", &v, "\r\nX-V:2\r\nX-V:2\r\nBEGIN:VEVENT\r\n", ids, "SUMMARY;LANGUAGE=\"", &q, "\":", &t, "\r\nEND:VEVENT\r\nEND:VCALENDAR\r\n"].concat(),
        1 => ["BEGIN:VCALENDAR\r\nVERSION:2.0\r\nBEGIN:VTIMEZONE\r\nTZID:", &t, "\r\nBEGIN:STANDARD\r\nTZNAME:", &t, "\r\nTZOFFSETFROM:+0200\r\nRRULE:FREQ=YEARLY;BYDAY=-1SU,MO\r\nEND:STANDARD\r\nBEGIN:STANDARD\r\nTZOFFSETFROM:+0200\r\nEND:STANDARD\r\nBEGIN:STANDARD\r\nTZOFFSETFROM:+0200\r\nEND:STANDARD\r\nBEGIN:DAYLIGHT\r\nX:", &v, "\r\nEND:DAYLIGHT\r\nEND:VTIMEZONE\r\nBEGIN:VEVENT\r\n", ids, "DTSTART;TZID=\"", &q, "\":20240101T101010\r\nEND:VEVENT\r\nEND:VCALENDAR\r\n"].concat(),
        2 => ["BEGIN:VCALENDAR\r\nBEGIN:VEVENT\r\n", ids, "ATTENDEE;ROLE=REQ-PARTICIPANT;CN=\"", &q, "\";PARTSTAT=ACCEPTED:mailto:a\r\nSUMMARY:x\r\nATTENDEE:", &v, "\r\nATTENDEE;CN=b:mailto:a\r\nATTENDEE;CN=b:mailto:a\r\nCOMMENT:", &t, "\r\nCOMMENT:b\r\nCOMMENT:b\r\nCOMMENT:", &t, "\r\nCATEGORIES:A\r\nCATEGORIES:B\r\nEXDATE;VALUE=DATE:20240101,20240102\r\nX-T;VALUE=TEXT:", &t, "\r\nDESCRIPTION;VALUE=URI:", &v, "\r\nURL:", &v, "\r\nEND:VEVENT\r\nEND:VCALENDAR\r\n"].concat(),
        3 => ["BEGIN:VCALENDAR\r\nVERSION:2.0\r\nBEGIN:VEVENT\r\n", ids, "BEGIN:VALARM\r\nACTION:DISPLAY\r\nTRIGGER;RELATED=END;X-P=\"", &q, "\":-PT5M\r\nDESCRIPTION:", &t, "\r\nEND:VALARM\r\nSUMMARY:y\r\nBEGIN:VALARM\r\nACTION:AUDIO\r\nATTACH:", &v, "\r\nATTACH:b\r\nEND:VALARM\r\nBEGIN:VALARM\r\nEND:VALARM\r\nBEGIN:VALARM\r\nEND:VALARM\r\nBEGIN:VALARM\r\nACTION:AUDIO\r\nATTACH:", &v, "\r\nATTACH:b\r\nEND:VALARM\r\nEND:VEVENT\r\nBEGIN:VTODO\r\nUID:2\r\nSTATUS:NEEDS-ACTION\r\nEND:VTODO\r\nEND:VCALENDAR\r\n"].concat(),
        4 => ["BEGIN:VCALENDAR\r\nBEGIN:VEVENT\r\n", ids, "END:VEVENT\r\nBEGIN:VJOURNAL\r\nSUMMARY:", &t, "\r\nEND:VJOURNAL\r\nBEGIN:VFREEBUSY\r\nFREEBUSY;FBTYPE=\"", &q, "\":19970308T160000Z/PT3H\r\nFREEBUSY:", &v, "\r\nEND:VFREEBUSY\r\nBEGIN:VTODO\r\nDUE;VALUE=DATE:20240101\r\nEND:VTODO\r\nBEGIN:VVENUE\r\nNAME:", &t, "\r\nEND:VVENUE\r\nBEGIN:VEVENT\r\nUID:9\r\nEND:VEVENT\r\nBEGIN:VEVENT\r\nUID:9\r\nEND:VEVENT\r\nEND:VCALENDAR\r\n"].concat(),
        5 => ["BEGIN:VCALENDAR\r\nX-WR-CALNAME:", &t, "\r\nREFRESH-INTERVAL;VALUE=DURATION:PT1H\r\nNAME:", &t, "\r\nX-V;CN=\"\";X-L=\"", &q, "\",b,\"c:d\":", &v, "\r\nBEGIN:VEVENT\r\n", ids, "CATEGORIES:A,B,C\r\nRESOURCES;LANGUAGE=\"", &q, "\":x y,", &t.replace("\\,", ""), ",z\r\nATTENDEE;MEMBER=\"mailto:a\",\"", &q, "\";CUTYPE=GROUP;DELEGATED-TO=\"\",\"x;y\":mailto:a\r\nCATEGORIES:", &t.replace("\\,", ""), "\r\nRELATED-TO;RELTYPE=SIBLING:", &t, "\r\nEND:VEVENT\r\nEND:VCALENDAR\r\n"].concat(),
        // no calendar around
        _ => ["BEGIN:VEVENT\r\n", ids, "SUMMARY:", &t, "\r\nRRULE:", &v, "\r\nEND:VEVENT\r\nBEGIN:X-B\r\nX;Y=\"", &q, "\":1\r\nEND:X-B\r\n"].concat(),
    };
    emit(d.as_bytes());
    let inner = if param(0) <= 5 { d.clone() } else { ["BEGIN:VCALENDAR\r\n", &d, "END:VCALENDAR\r\n"].concat() };
    let mut want = match mtree(&inner) { Some(t) => t, None => return fail(1) };
    let mut c: Calendar = match d.parse() { Ok(c) => c, Err(_) => return fail(2) };
    let ev = match c.components.iter().position(|x| x.as_event().is_some()) { Some(i) => i, None => return fail(3) };
    check(want.kids[ev].name == b"VEVENT", 4);
    match if param(3) == 10 { fork(10) } else { param(3) } {
        0 => {}
        1 => if let CalendarComponent::Event(e) = &mut c.components[ev] {
            e.summary("new");
            want.kids[ev].set("SUMMARY", "new");
        },
        2 => if let CalendarComponent::Event(e) = &mut c.components[ev] {
            e.append_property(Property::new("PRIORITY", "3")).url("u:v");
            want.kids[ev].set("PRIORITY", "3");
            want.kids[ev].set("URL", "u:v");
        },
        3 => {
            c.append_property(("X-NEW", "\\,"));
            want.props.push(Meant { name: b"X-NEW".to_vec(), params: vec![], value: b"\\,".to_vec() });
        }
        4 => {
            c.push(Todo::new().uid("3").append_property(("DTSTAMP", "20240101T000000Z")).done());
            want.kids.push(MTree { name: b"VTODO".to_vec(), props: vec![], kids: vec![] });
            if let Some(k) = want.kids.last_mut() { k.set("UID", "3"); k.set("DTSTAMP", "20240101T000000Z"); }
        }
        5 => {
            c.components.remove(0);
            want.kids.remove(0);
        }
        6 => if let CalendarComponent::Event(e) = &mut c.components[ev] {
            e.add_multi_property("COMMENT", "an, other");
            want.kids[ev].props.push(Meant { name: b"COMMENT".to_vec(), params: vec![], value: b"an, other".to_vec() });
        },
        7 => {
            c.name("new");
            want.set("NAME", "new");
            want.set("X-WR-CALNAME", "new");
        }
        8 => {
            c.ttl(&chrono::Duration::minutes(90));
            want.set("REFRESH-INTERVAL", "PT5400S");
            if let Some(p) = want.props.last_mut() { p.params.push((b"VALUE".to_vec(), b"DURATION".to_vec())); }
            want.set("X-PUBLISHED-TTL", "PT5400S");
        }
        _ => if let CalendarComponent::Event(e) = &mut c.components[ev] {
            let f = e.done();
            check(e.properties().is_empty(), 5);
            c.components[ev] = f.into();
        },
    }
    let w = c.to_string();
    match mtree(&w) {
        Some(got) => check(want.like(&got, true), 6),
        None => return fail(7),
    }
    // and once more
    match w.parse::<Calendar>() {
        Ok(e) => match mtree(&e.to_string()) {
            Some(got) => {
                check(want.like(&got, true), 8);
                cover(1);
            }
            None => fail(9),
        },
        Err(_) => fail(10),
    }
}

/// params: chars, unicode?
/// components of any kind put into components of any kind
fn h_children() {
    let t = text(param(0), &PRINT, param(1));
    fn fill<C: Component>(mut c: C, t: &str) -> C {
        c.uid("k").append_property(("DTSTAMP", "20240101T000000Z")).summary(t);
        c.add_multi_property("COMMENT", t).add_multi_property("ATTENDEE", "a");
        c
    }
    macro_rules! unknown {
        () => {
            match "BEGIN:X-OTHER\nBEGIN:X-IN\nUID:i\nDTSTAMP:20240101T000000Z\nEND:X-IN\nEND:X-OTHER\n".parse::<CalendarComponent>() {
                Ok(CalendarComponent::Other(o)) => o,
                _ => unreachable!(),
            }
        };
    }
    fn alarm() -> Alarm { Alarm::audio(chrono::Duration::minutes(1)) }
    fn child<C: Component>(c: &mut C, k: usize, t: &str) {
        match k {
            0 => c.append_component(fill(Event::new(), t)),
            1 => c.append_component(fill(Todo::new(), t)),
            2 => c.append_component(fill(Venue::new(), t)),
            3 => c.append_component(fill(alarm(), t)),
            _ => c.append_component(fill(unknown!(), t)),
        };
    }
    fn deep<C: Component>(c: C, t: &str, b: usize) -> C {
        let mut c = fill(c, t);
        child(&mut c, b, "deep");
        c
    }
    const K: [&str; 5] = ["VEVENT", "VTODO", "VVENUE", "VALARM", "X-OTHER"];
    let (outer, a, b) = (fork(4), fork(5), fork(5));
    fn put<C: Component>(mut c: C, a: usize, b: usize, t: &str) -> C {
        child(&mut c, b, t);
        match a {
            0 => c.append_component(deep(Event::new(), t, b)),
            1 => c.append_component(deep(Todo::new(), t, b)),
            2 => c.append_component(deep(Venue::new(), t, b)),
            3 => c.append_component(deep(alarm(), t, b)),
            _ => c.append_component(deep(unknown!(), t, b)),
        };
        c.uid("o").append_property(("DTSTAMP", "20240101T000000Z"));
        c
    }
    let c: CalendarComponent = match outer {
        0 => put(Event::new(), a, b, &t).into(),
        1 => put(Todo::new(), a, b, &t).into(),
        2 => put(Venue::new(), a, b, &t).into(),
        _ => put(fill(unknown!(), "o"), a, b, &t).into(),
    };
    let base = if outer == 3 { 1 } else { 0 };
    let seen = |c: &CalendarComponent, n: u32| {
        let kids = dynof(c).kids();
        check(kids.len() == base + 2, n);
        let (x, y) = (kids[base], kids[base + 1]);
        check(x.kind() == K[b] && y.kind() == K[a], n + 1);
        for k in [x, y] {
            check(k.prop("SUMMARY") == Some(&t) && k.prop("UID") == Some("k"), n + 2);
            check(k.multi().len() == 2 && k.multi().get("COMMENT").map(|v| v.len() == 1 && v[0].value() == t) == Some(true), n + 3);
        }
        let deep = y.kids();
        check(x.kids().len() == (b == 4) as usize && deep.len() == 1 + (a == 4) as usize, n + 4);
        let last = deep[deep.len() - 1];
        check(last.kind() == K[b] && last.prop("SUMMARY") == Some("deep"), n + 5);
    };
    seen(&c, 1);
    let mut cal = Calendar::new();
    cal.push(c);
    let w = cal.to_string();
    emit(w.as_bytes());
    match w.parse::<Calendar>() {
        Ok(d) => {
            check(d.len() == 1, 10);
            seen(&d.components[0], 11);
            check(d == cal, 20);
            cover(1);
        }
        Err(_) => fail(21),
    }
}

/// params: chars of name, chars of value, unicode?
/// all ways to make a property, parameter or component do the same, and look-ups give what is there
fn h_make() {
    let n = ["X-", &string(param(0), &NAMECH)].concat();
    let v = text(param(1), &PRINT, param(2));
    let q = text(param(1), &PRINT.minus(Set::of(b"\"")), param(2));
    let p = Property::new(&*n, &*v);
    check(p.key() == n && p.value() == v && p.params().is_empty(), 1);
    for o in [Property::new(n.clone(), v.clone()), Property::new_pre_alloc(n.clone(), v.clone()), Property::from((&*n, &*v)), Property::new(&*n, &*v).done()] {
        check(o == p, 2);
    }
    let m = Parameter::new(&n, &q);
    check(m.key() == n && m.value() == q && Parameter::from((&*n, &*q)) == m, 3);
    let mut a = p.clone();
    a.add_parameter(&n, &q);
    check(a != p, 4);
    for o in [p.clone().append_parameter(m.clone()), p.clone().append_parameter((&*n, &*q)), p.clone().append_parameter(("X", "1")).append_parameter(m.clone())] {
        let x = o.params().get(&n);
        check(x == Some(&m) && o.key() == n && o.value() == v, 5);
    }
    check(p.clone().append_parameter(m.clone()).done() == a && *p.clone().append_parameter((&*n, &*q)) == a, 6);
    // again: the last one counts
    check(*p.clone().add_parameter(&n, "other").add_parameter(&n, &q) == a, 7);
    // taken out of the builder
    let mut b = a.clone();
    let d = b.done();
    check(d == a && b.key().is_empty() && b.value().is_empty() && b.params().is_empty(), 8);
    let mut al = Alarm::display(&v, chrono::Duration::minutes(1));
    al.uid(&q);
    let copy = al.clone();
    let d = al.done();
    check(d == copy && al.properties().is_empty() && d.properties().len() == 4, 24);
    let mut cal = Calendar::new();
    cal.name(&v).push(Event::new());
    let d = cal.done();
    check(cal.properties.is_empty() && cal.components.is_empty() && d.len() == 1 && d.properties.len() == 5, 25);
    // look-ups
    check(a.get_value_as(|s| Some(s.to_string())) == Some(v.clone()) && a.get_value_as(|_| None::<u8>).is_none(), 9);
    check(a.get_param_as(&n, |s| Some(s.to_string())) == Some(q.clone()) && a.get_param_as(&n, |_| None::<u8>).is_none() && a.get_param_as("Y", |_| Some(1)).is_none(), 10);
    // in arrays
    let l = Property::from_array([a.clone(), p.clone(), Property::new("Z", "")]);
    check(l.len() == 3 && l[0] == a && l[1] == p && l[2].key() == "Z", 11);
    // in components and calendars
    let ts = |e: &mut Event| { e.uid("1").append_property(("DTSTAMP", "20240101T000000Z")); };
    let mut e = [Event::new(), Event::new(), Event::new(), Event::new()];
    e[0].append_property(p.clone());
    e[1].add_property(&*n, &*v);
    e[2].add_property_pre_alloc(n.clone(), v.clone());
    e[3].append_property((&*n, &*v));
    for x in &mut e {
        ts(x);
        check(x.properties().get(&n) == Some(&p) && x.property_value(&n) == Some(&v) && x.properties().len() == 3, 12);
    }
    check(e[0] == e[1] && e[1] == e[2] && e[2] == e[3], 13);
    let mut f = [Event::new(), Event::new()];
    f[0].append_multi_property(p.clone());
    f[1].add_multi_property(&n, &v);
    for x in &mut f { ts(x); }
    check(f[0] == f[1] && f[0].multi_properties().get(&n).map(|x| x.len() == 1 && x[0] == p) == Some(true) && f[0] != e[0], 14);
    let mut c = [Calendar::new(), Calendar::new(), Calendar::new(), Calendar::from(e[0].clone()), Calendar::from([e[0].clone()])];
    c[0].push(e[0].clone());
    c[1].add(e[0].clone());
    c[2].extend([e[0].clone()]);
    for x in &c {
        check(*x == c[0] && x.len() == 1 && x[0] == CalendarComponent::from(e[0].clone()), 15);
    }
    for (x, y) in c.iter_mut().zip([Property::from((&*n, &*v)), p.clone(), p.clone(), p.clone(), p.clone()]) {
        x.append_property(y);
        check(x.property_value(&n) == Some(&v) && x.properties.len() == 4, 16);
    }
    // written the same in all ways
    let w = e[0].to_string();
    emit(w.as_bytes());
    check(e[0].try_into_string().ok().as_ref() == Some(&w), 17);
    let [e0, e1, ..] = e;
    let s: Result<String, _> = e0.try_into();
    check(s.ok().as_ref() == Some(&w), 18);
    check(CalendarComponent::from(e1) == c[0][0], 19);
    let s: Result<String, _> = p.clone().try_into();
    let s = match s { Ok(s) => s, Err(_) => return fail(20) };
    let one = [&n, ":", &v].concat();
    check(s == [&one, "\r\n"].concat(), 21);
    check(ref_lines(w.as_bytes()).map(|l| l.iter().filter(|l| **l == one.as_bytes()).count()) == Some(1), 23);
    let s: Result<String, _> = (&c[0]).try_into();
    check(s.ok() == Some(c[0].to_string()), 22);
    cover(1);
}

/// params: components, alarms at most
/// made up UIDs are UUIDs, all different from each other; a made up DTSTAMP is now, in UTC
fn h_generated() {
    let mut c = Calendar::new();
    let mut n = 0;
    for _ in 0..param(0) {
        let given = fork(2) == 1;
        match fork(3) {
            0 => {
                let mut e = Event::new();
                if given { e.uid("given"); }
                for _ in 0..fork(param(1) + 1) {
                    e.alarm(Alarm::audio(chrono::Duration::minutes(1)));
                    n += 1;
                }
                c.push(e);
            }
            1 => {
                let mut e = Todo::new();
                if given { e.uid("given"); }
                c.push(e);
            }
            _ => {
                let mut e = Venue::new();
                if given { e.uid("given"); }
                c.push(e);
            }
        }
        n += !given as usize;
    }
    let now = chrono::Utc::now();
    let w = c.to_string();
    let lines = match ref_lines(w.as_bytes()) { Some(l) => l, None => return fail(1) };
    let mut seen: Vec<&[u8]> = vec![];
    for l in named(&lines, "UID") {
        let u = &l[4..];
        if u == b"given" { continue; }
        let mut ok = u.len() == 36;
        for (i, ch) in u.iter().enumerate() {
            ok &= match i {
                8 | 13 | 18 | 23 => *ch == b'-',
                _ => ch.is_ascii_hexdigit(),
            };
        }
        check(ok, 2);
        check(!seen.contains(&u), 3);
        seen.push(u);
    }
    check(seen.len() == n, 4);
    for l in named(&lines, "DTSTAMP") {
        match chrono::NaiveDateTime::parse_from_str(&String::from_utf8_lossy(&l[8..]), "%Y%m%dT%H%M%SZ") {
            Ok(t) => check((t - now.naive_utc()).num_seconds().abs() <= 60, 5),
            Err(_) => fail(6),
        }
    }
    // another time, other ones
    let v = c.to_string();
    let lines = match ref_lines(v.as_bytes()) { Some(l) => l, None => return fail(7) };
    for l in named(&lines, "UID") {
        check(l[4..] == b"given"[..] || !seen.contains(&&l[4..]), 8);
    }
    emit(&[n as u8]);
    cover(1);
}
}
