use crate::sx::*;
use crate::util::*;
use icalendar::parser::{read_calendar, read_components};
use icalendar::*;
use std::fmt::Write as _;

fn alarm(i: usize) -> Alarm {
    let d = chrono::Duration::minutes(5 + i as i64);
    let mut a = if i % 2 == 0 { Alarm::audio((d, Related::Start)) } else { Alarm::display("wake, up", d) };
    a.uid(DIG[i]).append_property(("DTSTAMP", "20240101T000000Z")).done()
}
/// all the lines of a document, or a failed check: CRLF everywhere, nothing but content lines
fn wellformed(w: &str) -> Option<Vec<Tree>> {
    let b = w.as_bytes();
    let mut i = 0;
    let mut ok = true;
    while i < b.len() {
        if b[i] == b'\r' {
            ok &= i + 1 < b.len() && b[i + 1] == b'\n';
        }
        if b[i] == b'\n' {
            ok &= i > 0 && b[i - 1] == b'\r';
        }
        i += 1;
    }
    check(ok, 40);
    let lines = match ref_lines(b) {
        Some(l) => l,
        None => {
            fail(41);
            return None;
        }
    };
    for l in &lines {
        check(ref_content_line(l).is_some(), 42);
    }
    let t = ref_tree(&lines);
    check(t.is_some(), 43);
    check(props_first(&lines), 46);
    t
}
/// a number for occurrence `i` of something: its own, or that of the one before
fn again(i: usize) -> &'static str {
    if i > 0 && fork(2) == 1 {
        DIG[i - 1]
    } else {
        DIG[i]
    }
}
/// in every component the properties come before the sub-components
fn props_first(lines: &[Vec<u8>]) -> bool {
    let mut after_kid: Vec<bool> = vec![];
    let mut ok = true;
    for l in lines {
        if starts(l, b"BEGIN:") {
            after_kid.push(false);
        } else if starts(l, b"END:") {
            after_kid.pop();
            if let Some(x) = after_kid.last_mut() {
                *x = true;
            }
        } else {
            ok &= after_kid.last() == Some(&false);
        }
    }
    ok
}
/// the default calendar properties, each exactly once
fn headed(t: &Tree, n: usize) {
    for l in ["VERSION:2.0", "PRODID:ICALENDAR-RS", "CALSCALE:GREGORIAN"] {
        check(t.props.iter().filter(|p| &p[..] == l.as_bytes()).count() == n, 44);
        let name = l.split(':').next().unwrap_or("");
        check(t.named(name).len() == n, 45);
    }
}

/// a writer that refuses at some point
struct Picky { out: String, calls: usize, at: usize, how: usize, refused: bool }
impl std::fmt::Write for Picky {
    fn write_str(&mut self, x: &str) -> std::fmt::Result {
        let k = self.calls;
        self.calls += 1;
        let no = match self.how {
            0 => k >= self.at,
            1 => k == self.at,
            _ => self.out.len() + x.len() > self.at,
        };
        if no {
            self.refused = true;
            return Err(std::fmt::Error);
        }
        self.out.push_str(x);
        Ok(())
    }
}
fn refuse(how: usize, f: &mut dyn FnMut(&mut Picky) -> std::fmt::Result) {
    let mut w = Picky { out: String::new(), calls: 0, at: usize::MAX, how, refused: false };
    check(f(&mut w).is_ok(), 1);
    // every call, every size
    let n = if how == 2 { w.out.len() } else { w.calls };
    emit_wire(&w.out);
    let all = w.out;
    let at = if n > 256 { fork(2) * (n - 256) + fork(256) } else { fork(n) };
    let mut w = Picky { out: String::new(), calls: 0, at, how, refused: false };
    let r = f(&mut w);
    check(w.refused && r.is_err(), 2);
    // what is made up on the spot (only when writing what has no DTSTAMP and UID) differs
    let made = param(0) == 1;
    let upto = |x: &str| if made { x.find("DTSTAMP:").unwrap_or(x.len()) } else { x.len() };
    check(all.starts_with(&w.out[..upto(&w.out)]), 3);
    cover(1);
}

crate::harnesses! {
/// params: most components, most alarms in each, extra properties?
/// components keep their kind, order, properties and children on the way over the wire
fn h_struct() {
    let n = fork(param(0) + 1);
    let mut c = Calendar::new();
    let mut want: Vec<(usize, usize, usize, usize)> = vec![];
    // alarms may be all the same
    let same = param(1) > 1 && fork(2) == 1;
    let idx = |j: usize| if same { 0 } else { j };
    for i in 0..n {
        let k = fork(4);
        let mut x = comp(k, DIG[i]);
        let mut na = 0;
        let mut nm = 0;
        let mut sum = 0;
        if param(2) == 1 {
            nm = fork(3);
            sum = fork(2);
        }
        if k < 2 {
            na = fork(param(1) + 1);
        }
        macro_rules! fill {
            ($e:expr) => {{
                for j in 0..nm {
                    $e.append_multi_property(("ATTENDEE", DIG[j]));
                }
                if sum == 1 {
                    $e.summary("sum;mary");
                }
            }};
        }
        match &mut x {
            CalendarComponent::Event(e) => {
                fill!(e);
                for j in 0..na { e.alarm(alarm(idx(j))); }
            }
            CalendarComponent::Todo(e) => {
                fill!(e);
                for j in 0..na { e.alarm(alarm(idx(j))); }
            }
            CalendarComponent::Venue(e) => fill!(e),
            CalendarComponent::Other(e) => fill!(e),
            _ => {}
        }
        c.push(x);
        want.push((k, na, nm, sum));
    }
    let w = c.to_string();
    emit(w.as_bytes());
    // on the wire
    let t = match ref_lines(w.as_bytes()).and_then(|l| ref_tree(&l)) { Some(t) => t, None => return fail(1) };
    check(t.len() == 1 && t[0].name == b"VCALENDAR" && t[0].kids.len() == n && t[0].props.len() == 3, 2);
    for (i, (k, na, nm, sum)) in want.iter().enumerate() {
        let x = &t[0].kids[i];
        check(x.name == KIND_NAMES[*k].as_bytes(), 3);
        check(x.kids.len() == *na && x.kids.iter().all(|a| a.name == b"VALARM"), 4);
        check(x.props.len() == 2 + nm + sum, 5);
        for (j, a) in x.kids.iter().enumerate() {
            check(a.named("UID").len() == 1 && &a.named("UID")[0][4..] == DIG[idx(j)].as_bytes(), 6);
        }
    }
    // read back
    match w.parse::<Calendar>() {
        Ok(d) => {
            check(d.components.len() == n, 7);
            for (i, (k, na, nm, sum)) in want.iter().enumerate() {
                let x = &d.components[i];
                check(kind_of(x) == *k, 8);
                check(x.as_event().is_some() == (*k == 0) && x.as_todo().is_some() == (*k == 1), 9);
                let v = dynof(x);
                check(v.kind() == KIND_NAMES[*k] && v.prop("UID") == Some(DIG[i]), 10);
                check(v.kids().len() == *na, 11);
                for (j, a) in v.kids().iter().enumerate() {
                    let j = idx(j);
                    check(a.kind() == "VALARM" && a.prop("UID") == Some(DIG[j]), 12);
                    check(a.prop("ACTION") == Some(if j % 2 == 0 { "AUDIO" } else { "DISPLAY" }), 13);
                    check(a.prop("DESCRIPTION") == if j % 2 == 0 { None } else { Some("wake, up") }, 14);
                }
                let m = v.multi().get("ATTENDEE").map(|m| m.len()).unwrap_or(0);
                check(m == *nm, 15);
                check(v.prop("SUMMARY") == if *sum == 1 { Some("sum;mary") } else { None }, 16);
            }
            check(d == c, 17);
            cover(1);
        }
        Err(_) => fail(18),
    }
}

/// params: greatest depth, children at each level (1 or 2), chars of the name
/// components of any kind may be nested, with properties before and after the children
fn h_nest() {
    let depth = 1 + fork(param(0));
    let name = string(param(2), &NAMECH);
    let mut d = String::new();
    let mut lines: Vec<Vec<u8>> = vec![];
    fn push(d: &mut String, lines: &mut Vec<Vec<u8>>, l: &[&str]) {
        let l = l.concat();
        d.push_str(&l);
        d.push_str("\r\n");
        lines.push(l.into_bytes());
    }
    fn level(d: &mut String, lines: &mut Vec<Vec<u8>>, name: &str, left: usize, kids: usize) {
        push(d, lines, &["BEGIN:X", name, DIG[left % 10]]);
        push(d, lines, &["A:", DIG[left % 10]]);
        push(d, lines, &["UID:u", DIG[left % 10]]);
        push(d, lines, &["DTSTAMP:20240101T000000Z"]);
        if left > 0 {
            for _ in 0..kids {
                level(d, lines, name, left - 1, kids);
            }
        }
        push(d, lines, &["ZZ:", DIG[left % 10]]);
        push(d, lines, &["COMMENT:c"]);
        push(d, lines, &["END:X", name, DIG[left % 10]]);
    }
    push(&mut d, &mut lines, &["BEGIN:VCALENDAR"]);
    level(&mut d, &mut lines, &name, depth, param(1));
    push(&mut d, &mut lines, &["END:VCALENDAR"]);
    emit(d.as_bytes());
    let want = match ref_tree(&lines) { Some(t) => t, None => return fail(1) };
    match d.parse::<Calendar>() {
        Ok(c) => {
            check(c.components.len() == 1, 2);
            let got = tree_of(dynof(&c.components[0])).normal(false);
            check(got == want[0].kids[0].normal(false), 3);
            let w = c.to_string();
            match ref_lines(w.as_bytes()).and_then(|l| ref_tree(&l)) {
                Some(t) => check(t.len() == 1 && t[0].normal(false) == want[0].normal(false), 4),
                None => fail(5),
            }
            match w.parse::<Calendar>() {
                Ok(e) => {
                    check(e == c, 6);
                    cover(1);
                }
                Err(_) => fail(7),
            }
        }
        Err(_) => fail(8),
    }
}

/// params: BEGIN, END and property lines within the calendar
/// every tree of that many lines, whatever is in which order, also components without content
fn h_tree() {
    const K: [&str; 4] = ["VEVENT", "VTODO", "VALARM", "X-O"];
    let mut d = String::new();
    let mut lines: Vec<Vec<u8>> = vec![];
    let mut open: Vec<&str> = vec![];
    fn push(d: &mut String, lines: &mut Vec<Vec<u8>>, l: &[&str]) {
        let l = l.concat();
        d.push_str(&l);
        d.push_str("\r\n");
        lines.push(l.into_bytes());
    }
    push(&mut d, &mut lines, &["BEGIN:VCALENDAR"]);
    let n = fork(param(0) + 1);
    for i in 0..n {
        match fork(if open.is_empty() { 5 } else { 7 }) {
            k @ 0..=3 => {
                // innermost kinds do not differ
                if open.len() > 1 {
                    assume(k > 1);
                }
                push(&mut d, &mut lines, &["BEGIN:", K[k]]);
                open.push(K[k]);
            }
            4 => push(&mut d, &mut lines, &["X-", DIG[i], ":v"]),
            5 => push(&mut d, &mut lines, &["COMMENT:", DIG[i]]),
            _ => {
                let k = open.pop().unwrap_or("");
                push(&mut d, &mut lines, &["END:", k]);
            }
        }
    }
    // the rest is closed
    while let Some(k) = open.pop() {
        push(&mut d, &mut lines, &["END:", k]);
    }
    push(&mut d, &mut lines, &["END:VCALENDAR"]);
    emit(d.as_bytes());
    let want = match ref_tree(&lines) { Some(t) => t, None => return fail(1) };
    let want = &want[0];
    let c: Calendar = match d.parse() { Ok(c) => c, Err(_) => return fail(2) };
    let props: Vec<Vec<u8>> = c.properties.iter().map(|p| [p.key().as_bytes(), b":", p.value().as_bytes()].concat()).collect();
    check(props == want.props, 3);
    check(c.components.len() == want.kids.len(), 4);
    for (x, y) in c.components.iter().zip(&want.kids) {
        check(tree_of(dynof(x)).normal(false) == y.normal(false), 5);
    }
    let w = c.to_string();
    let l = match ref_lines(w.as_bytes()) { Some(l) => l, None => return fail(6) };
    check(props_first(&l), 7);
    match ref_tree(&l) {
        Some(t) => check(t.len() == 1 && t[0].normal(true) == want.normal(true), 8),
        None => fail(9),
    }
    match parser::read_calendar(&d) {
        Ok(p) => {
            // as the parser's types see it, in document order
            fn tree(c: &parser::Component) -> Tree {
                Tree {
                    name: c.name.as_str().as_bytes().to_vec(),
                    props: c.properties.iter().map(|p| [p.name.as_str().as_bytes(), b":", p.val.as_str().as_bytes()].concat()).collect(),
                    kids: c.components.iter().map(tree).collect(),
                }
            }
            let t: Vec<Tree> = p.components.iter().map(tree).collect();
            check(t == want.kids, 10);
            let o = p.to_string();
            match ref_lines(o.as_bytes()).and_then(|l| ref_tree(&l)) {
                Some(t) => check(t.len() == 1 && t[0] == *want, 11),
                None => fail(12),
            }
        }
        Err(_) => fail(13),
    }
    cover(1);
}

/// params: most chars after a known name, also one char changed?
/// a component is of a known kind if its name is exactly that kind's; any other name is kept as it is
fn h_kind() {
    const K: [&str; 9] = ["VEVENT", "VTODO", "VVENUE", "VALARM", "VCALENDAR", "VTIMEZONE", "VJOURNAL", "VFREEBUSY", "AVAILABLE"];
    let set = NAMECH.or(Set::range(b'a', b'z'));
    let k = fork(9);
    let n = if fork(2) == 0 { near(K[k], &set) } else { [K[k], &s(bytes(1 + fork(param(0)), &set))].concat() };
    assume(!n.is_empty());
    let want = ["VEVENT", "VTODO", "VVENUE"].iter().position(|x| *x == n).unwrap_or(3);
    let doc = ["BEGIN:", &n, "\r\nUID:1\r\nDTSTAMP:20240101T000000Z\r\nCOMMENT:c\r\nEND:", &n, "\r\n"].concat();
    emit(doc.as_bytes());
    // as a root
    match doc.parse::<CalendarComponent>() {
        Ok(x) => {
            check(kind_of(&x) == want, 1);
            check(dynof(&x).kind() == n && dynof(&x).prop("UID") == Some("1") && dynof(&x).multi().len() == 1, 2);
            check(x.as_event().is_some() == (want == 0) && x.as_todo().is_some() == (want == 1), 3);
            let w = Calendar::from([x]).to_string();
            match ref_lines(w.as_bytes()).and_then(|l| ref_tree(&l)) {
                Some(t) => check(t.len() == 1 && t[0].kids.len() == 1 && t[0].kids[0].name == n.as_bytes() && t[0].kids[0].props.len() == 3 && t[0].kids[0].kids.is_empty(), 5),
                None => fail(6),
            }
        }
        Err(_) => fail(7),
    }
    match doc.parse::<Calendar>() {
        Ok(c) => {
            let cal = n == "VCALENDAR";
            check(c.components.len() == !cal as usize && c.properties.len() == if cal { 3 } else { 0 }, 8);
        }
        Err(_) => fail(9),
    }
    // in a calendar, with another inside
    let d = ["BEGIN:VCALENDAR\r\nBEGIN:", &n, "\r\nBEGIN:", &n, "\r\nEND:", &n, "\r\nUID:1\r\nEND:", &n, "\r\nEND:VCALENDAR\r\n"].concat();
    match d.parse::<Calendar>() {
        Ok(c) => {
            check(c.components.len() == 1, 10);
            let x = &c.components[0];
            check(kind_of(x) == want && dynof(x).kind() == n && dynof(x).prop("UID") == Some("1"), 11);
            let kids = dynof(x).kids();
            check(kids.len() == 1 && kids[0].kind() == n && kids[0].props().is_empty(), 12);
            cover(1);
        }
        Err(_) => fail(13),
    }
}

/// params: most chars after a known name
/// a parsed component of any name is written back with that name, and with nothing more or less than it had
fn h_reser_kind() {
    const K: [&str; 12] = ["CALENDAR", "VCALENDAR", "VEVENT", "VTODO", "VVENUE", "VALARM", "VTIMEZONE", "STANDARD", "DAYLIGHT", "VJOURNAL", "VFREEBUSY", "X-A"];
    let set = NAMECH.or(Set::range(b'a', b'z'));
    let mut n = K[fork(12)].as_bytes().to_vec();
    match fork(4) {
        0 => n.extend_from_slice(&bytes(fork(param(0) + 1), &set)),
        1 => {
            let i = fork(n.len());
            n[i] = byte(&set);
        }
        2 => n.make_ascii_lowercase(),
        _ => {
            let i = fork(n.len());
            n.remove(i);
        }
    }
    let n = s(n);
    let b = ["BEGIN:", &n, "\r\n"].concat();
    let e = ["END:", &n, "\r\n"].concat();
    let doc = match fork(4) {
        0 => [&b, &*e].concat(),
        1 => [&b, "X-A:1\r\nUID:2\r\n", &b, "DTSTAMP:20240101T000000Z\r\n", &e, &e].concat(),
        2 => ["BEGIN:VCALENDAR\r\n", &b, &e, &b, "VERSION:2.0\r\n", &e, "END:VCALENDAR\r\n"].concat(),
        _ => [&b, &e, &b, &b, "CALSCALE:GREGORIAN\r\nPRODID:x\r\n", &e, &e].concat(),
    };
    emit(doc.as_bytes());
    let l = match ref_lines(doc.as_bytes()) { Some(l) => l, None => return fail(1) };
    let want = match ref_tree(&l) { Some(t) => t, None => return fail(2) };
    match read_components(&doc) {
        Ok(c) => {
            check(c.len() == want.len(), 3);
            for (x, y) in c.iter().zip(&want) {
                check(x.name.as_str().as_bytes() == y.name && x.components.len() == y.kids.len() && x.properties.len() == y.props.len(), 4);
            }
        }
        Err(_) => fail(5),
    }
    match read_calendar(&doc) {
        Ok(c) => {
            let w = c.to_string();
            match ref_lines(w.as_bytes()).and_then(|l| ref_tree(&l)) {
                Some(t) => {
                    check(t.len() == 1 && t[0].name == b"VCALENDAR", 6);
                    // what comes first is the calendar itself, or in it
                    check(if want[0].name == b"VCALENDAR" { t[0] == want[0] } else { t[0].props.is_empty() && t[0].kids == want }, 7);
                    cover(1);
                }
                None => fail(8),
            }
        }
        Err(_) => fail(9),
    }
}

/// params: name (11: all), occurrences, chars in each value
/// every occurrence of a property that may occur more than once is kept, in order
fn h_multi() {
    const NAMES: [&str; 11] = ["ATTACH", "ATTENDEE", "CATEGORIES", "COMMENT", "CONTACT", "EXDATE", "FREEBUSY", "RDATE", "RESOURCES", "RELATED-TO", "REQUEST-STATUS"];
    let k = if param(0) >= 11 { fork(11) } else { param(0) };
    let other = NAMES[(k + 4) % 11];
    let set = Set::range(b'a', b'z').or(DIGIT);
    let mut vals: Vec<String> = vec![];
    let mut others: Vec<String> = vec![];
    let mut body: Vec<String> = vec![];
    for i in 0..param(1) {
        match fork(3) {
            0 => {
                let g = again(i);
                let v = [g, &string(param(2), &set)].concat();
                body.push([NAMES[k], ";X-P=", g, ":", &v, "\r\n"].concat());
                vals.push(v);
            }
            1 => {
                let v = [again(i), &string(param(2), &set)].concat();
                body.push([other, ":", &v, "\r\n"].concat());
                others.push(v);
            }
            _ => body.push("SUMMARY:s\r\n".to_string()),
        }
    }
    let lv = fork(4);
    let (open, close) = match lv {
        0 => ("BEGIN:VEVENT\r\nUID:1\r\nDTSTAMP:20240101T000000Z\r\n", "END:VEVENT\r\n"),
        1 => ("BEGIN:VTODO\r\nUID:1\r\nDTSTAMP:20240101T000000Z\r\nBEGIN:VALARM\r\nUID:1\r\nDTSTAMP:20240101T000000Z\r\n", "END:VALARM\r\nEND:VTODO\r\n"),
        2 => ("BEGIN:VVENUE\r\nUID:1\r\nDTSTAMP:20240101T000000Z\r\n", "END:VVENUE\r\n"),
        _ => ("BEGIN:X-OTHER\r\nUID:1\r\nDTSTAMP:20240101T000000Z\r\n", "END:X-OTHER\r\n"),
    };
    let d = ["BEGIN:VCALENDAR\r\n", open, &body.concat(), close, "END:VCALENDAR\r\n"].concat();
    let seen = |c: &Calendar, id: u32| {
        check(c.components.len() == 1, id);
        let mut x = dynof(&c.components[0]);
        if lv == 1 {
            x = match x.kids().first() { Some(a) => *a, None => return fail(id + 1) };
        }
        for (n, l) in [(NAMES[k], &vals), (other, &others)] {
            let got = x.multi().get(n);
            check(got.map(|v| v.len()).unwrap_or(0) == l.len(), id + 2);
            if let Some(v) = got {
                for (p, q) in v.iter().zip(l.iter()) {
                    check(p.key() == n && p.value() == q, id + 3);
                    if n == NAMES[k] {
                        check(p.params().get("X-P").map(|x| x.value()) == q.get(..1), id + 4);
                    }
                }
            }
        }
        check(x.multi().len() == !vals.is_empty() as usize + !others.is_empty() as usize, id + 5);
    };
    emit(d.as_bytes());
    match d.parse::<Calendar>() {
        Ok(c) => {
            seen(&c, 1);
            let w = c.to_string();
            let lines = match ref_lines(w.as_bytes()) { Some(l) => l, None => return fail(8) };
            for (n, l) in [(NAMES[k], &vals), (other, &others)] {
                let on = named(&lines, n);
                check(on.len() == l.len(), 9);
                for (a, b) in on.iter().zip(l.iter()) {
                    check(ref_content_line(a).map(|r| r.value == b.as_bytes()) == Some(true), 10);
                }
            }
            match w.parse::<Calendar>() {
                Ok(e) => {
                    seen(&e, 11);
                    check(e == c, 18);
                    cover(1);
                }
                Err(_) => fail(19),
            }
        }
        Err(_) => fail(20),
    }
}

/// params: occurrences, chars in each value
/// multi properties set in code are kept, in order, whatever their name
fn h_multi_build() {
    let set = PRINT;
    let names = ["ATTENDEE", "X-MULTI", "EXDATE"];
    let mut e = Event::new();
    e.uid("1").append_property(("DTSTAMP", "20240101T000000Z"));
    let mut want: Vec<Vec<String>> = vec![vec![], vec![], vec![]];
    // single properties of the same name, before or after, have nothing to do with them
    let single = fork(5);
    if single == 1 || single == 2 { e.add_property(names[single - 1], again(0)); }
    for i in 0..param(0) {
        let k = fork(3);
        let v = [again(i), &string(param(1), &set)].concat();
        if fork(2) == 0 {
            e.add_multi_property(names[k], &v);
        } else {
            e.append_multi_property(Property::new(names[k], &*v));
        }
        want[k].push(v);
    }
    if single > 2 { e.add_property(names[single - 3], again(0)); }
    let has = |k: usize| single != 0 && (single - 1) % 2 == k;
    let e = e.done();
    for k in 0..3 {
        check(e.property_value(names[k]) == if has(k) { Some(again(0)) } else { None }, 6);
        let got: Vec<&str> = e.multi_properties().get(names[k]).map(|v| v.iter().map(|p| p.value()).collect()).unwrap_or_default();
        check(got.len() == want[k].len() && got.iter().zip(&want[k]).all(|(a, b)| a == b), 1);
    }
    let w = e.to_string();
    emit(w.as_bytes());
    let lines = match ref_lines(w.as_bytes()) { Some(l) => l, None => return fail(2) };
    for k in 0..3 {
        let mut on = named(&lines, names[k]);
        if has(k) {
            check(!on.is_empty() && &on[0][names[k].len() + 1..] == again(0).as_bytes(), 7);
            if !on.is_empty() { on.remove(0); }
        }
        check(on.len() == want[k].len(), 3);
        for (a, b) in on.iter().zip(&want[k]) {
            check(&a[names[k].len() + 1..] == b.as_bytes(), 4);
        }
    }
    cover(1);
}

/// params: kind (5: all), chars
/// each component is written with exactly one UID and one DTSTAMP, the user's if there is one
fn h_stamp() {
    let k = if param(0) >= 5 { fork(5) } else { param(0) };
    let has_uid = fork(2) == 1;
    let has_ts = fork(2) == 1;
    let u = text(param(1), &PRINT, 2);
    let ts = if has_ts { ["20010203T040506Z", "20010203T040506", "x", ""][fork(4)] } else { "" };
    fn set<C: Component>(c: &mut C, has_uid: bool, has_ts: bool, u: &str, ts: &str) {
        if has_uid { c.uid(u); }
        if has_ts { c.add_property("DTSTAMP", ts); }
        c.summary("s");
    }
    let mut c = Calendar::new();
    match k {
        0 => { let mut e = Event::new(); set(&mut e, has_uid, has_ts, &u, ts); c.push(e); }
        1 => { let mut e = Todo::new(); set(&mut e, has_uid, has_ts, &u, ts); c.push(e); }
        2 => { let mut e = Venue::new(); set(&mut e, has_uid, has_ts, &u, ts); c.push(e); }
        3 => {
            let mut a = Alarm::audio(chrono::Duration::minutes(1));
            set(&mut a, has_uid, has_ts, &u, ts);
            c.push(Event::new().uid("event").alarm(a).done());
        }
        _ => {
            let x = match "BEGIN:X-OTHER\nEND:X-OTHER\n".parse::<CalendarComponent>() { Ok(CalendarComponent::Other(o)) => o, _ => return fail(1) };
            let mut x = x;
            set(&mut x, has_uid, has_ts, &u, ts);
            c.push(x);
        }
    }
    let before = tree_of(dynof(&c.components[0]));
    let w = c.to_string();
    // writing does not change the calendar
    check(tree_of(dynof(&c.components[0])) == before, 2);
    let t = match ref_lines(w.as_bytes()).and_then(|l| ref_tree(&l)) { Some(t) => t, None => return fail(3) };
    check(t.len() == 1 && t[0].kids.len() == 1, 4);
    let mut x = &t[0].kids[0];
    if k == 3 {
        check(x.named("UID").len() == 1 && x.named("UID")[0] == b"UID:event" && x.named("DTSTAMP").len() == 1, 5);
        check(x.kids.len() == 1, 6);
        x = &x.kids[0];
    }
    let ul = x.named("UID");
    let tl = x.named("DTSTAMP");
    check(ul.len() == 1 && tl.len() == 1, 7);
    if has_uid {
        check(ref_text(&ul[0][4..]).as_deref() == Some(u.as_bytes()), 8);
    } else {
        check(ul[0].len() > 4, 9);
    }
    if has_ts {
        check(&tl[0][8..] == ts.as_bytes(), 10);
    } else {
        let v = &tl[0][8..];
        let mut ok = v.len() == 16;
        for (i, ch) in v.iter().enumerate() {
            ok &= match i { 8 => *ch == b'T', 15 => *ch == b'Z', _ => ch.is_ascii_digit() };
        }
        check(ok, 11);
    }
    check(t[0].named("UID").is_empty() && t[0].named("DTSTAMP").is_empty(), 12);
    // reading does not make up what is not there
    let d = ["BEGIN:VEVENT\n", if has_uid { "UID:1\n" } else { "" }, if has_ts { "DTSTAMP:20010203T040506Z\n" } else { "" }, "END:VEVENT\n"].concat();
    match d.parse::<Calendar>() {
        Ok(e) => {
            let x = dynof(&e.components[0]);
            check(x.props().len() == has_uid as usize + has_ts as usize, 13);
            cover(1);
        }
        Err(_) => fail(14),
    }
    emit(before.props.concat().as_slice());
}

/// params: steps
/// a calendar is a sequence of components: histories of pushes, appends, extends, moves and reloads
fn h_ops() {
    let mut want: Vec<(usize, String)> = vec![];
    let head = |c: &Calendar, n: usize, full: bool| {
        check(c.properties.len() == n, 20);
        if full {
            check(c.property_value("VERSION") == Some("2.0") && c.property_value("PRODID") == Some("ICALENDAR-RS") && c.property_value("CALSCALE") == Some("GREGORIAN"), 21);
        }
    };
    let mut np = 3;
    let mut full = true;
    let mut c = match fork(6) {
        0 => Calendar::new(),
        1 => { np = 0; full = false; Calendar::empty() }
        2 => Calendar::default(),
        3 => {
            want.push((0, "a".to_string()));
            want.push((0, "b".to_string()));
            Calendar::from([Event::new().uid("a").done(), Event::new().uid("b").done()])
        }
        4 => {
            want.push((1, "a".to_string()));
            Calendar::from(Todo::new().uid("a").done())
        }
        _ => {
            want.push((2, "a".to_string()));
            want.push((0, "b".to_string()));
            vec![comp(2, "a"), comp(0, "b")].into_iter().collect::<Calendar>()
        }
    };
    for i in 0..param(0) {
        // the last one may be the same again
        let u = DIG[if i > 0 && i + 1 == param(0) { i - fork(2) } else { i }];
        match fork(9) {
            k @ 0..=2 => {
                let r = c.push(comp(k, u));
                check(!r.components.is_empty(), 22);
                want.push((k, u.to_string()));
            }
            3 => {
                let mut o = Calendar::new();
                o.push(comp(1, u)).push(comp(0, "x"));
                o.append_property(("X-O", "1"));
                c.append(&mut o);
                want.push((1, u.to_string()));
                want.push((0, "x".to_string()));
                check(o.components.is_empty() && o.is_empty(), 1);
            }
            4 => {
                c.extend(vec![Todo::new().uid(u).done(), Todo::new().uid("y").done()]);
                want.push((1, u.to_string()));
                want.push((1, "y".to_string()));
            }
            5 => {
                let d = c.done();
                check(c.components.is_empty() && c.properties.is_empty(), 2);
                c = d;
            }
            6 => {
                c.append_property(("X-P", u));
                np += 1;
                check(c.properties.last().map(|p| p.value()) == Some(u), 3);
                check(c.property_value("X-NONE").is_none(), 4);
            }
            7 => {
                let v = std::mem::take(&mut c.components);
                c = v.into_iter().collect();
                np = 3;
                full = true;
            }
            _ => {
                let w = c.to_string();
                c = match w.parse() { Ok(c) => c, Err(_) => return fail(5) };
            }
        }
        head(&c, np, full);
        check(c.len() == want.len() && c.components.len() == want.len() && c.is_empty() == want.is_empty(), 6);
        let r: &[CalendarComponent] = c.as_ref();
        check(r.len() == want.len() && c.iter().count() == want.len(), 7);
        for (x, (k, u)) in c.iter().zip(&want) {
            check(kind_of(x) == *k && dynof(x).prop("UID") == Some(u), 8);
        }
    }
    for (k, u) in &want {
        emit(&[*k as u8]);
        emit(u.as_bytes());
    }
    cover(1);
}

/// params: setter (KINDS: all), chars, unicode?
/// whatever the text, the document consists of content lines in balanced components
fn h_well() {
    let k = if param(0) >= KINDS { fork(KINDS) } else { param(0) };
    let t = text(param(1), &ASCII.minus(Set::of(b"\r")), param(2));
    let c = kind_set(k, &t);
    let w = c.to_string();
    emit_wire(&w);
    if let Some(v) = wellformed(&w) {
        check(v.len() == 1 && v[0].name == b"VCALENDAR", 1);
        headed(&v[0], 1);
        let x = if (17..=22).contains(&k) || k == 29 { 0 } else { 1 };
        check(v[0].kids.len() == x, 2);
        cover(1);
    }
}

/// params: chars, unicode?
/// what is printed to standard output is what is written
fn h_print() {
    let k = fork(5);
    let t = text(param(0), &ASCII.minus(Set::of(b"\r")), param(1));
    let c = comp(k % 4, "1");
    macro_rules! both { ($x:expr) => {{ let x = &$x; let w = x.to_string(); (printed(|| check(x.print().is_ok(), 1)), w) }} }
    let (p, w) = if k == 4 {
        let mut cal = Calendar::new();
        cal.name(&t);
        for i in 0..fork(3) { cal.push(comp(i, "1")); }
        if fork(2) == 1 {
            let d = cal.to_string();
            let d = icalendar::parser::unfold(&d);
            match read_calendar(&d) {
                Ok(c) => both!(c),
                Err(_) => return fail(5),
            }
        } else {
            both!(cal)
        }
    } else {
        match c {
            CalendarComponent::Event(mut e) => both!(e.summary(&t)),
            CalendarComponent::Todo(mut e) => both!(e.summary(&t)),
            CalendarComponent::Venue(mut e) => both!(e.summary(&t)),
            CalendarComponent::Other(e) => both!(e),
            _ => return fail(4),
        }
    };
    emit(&p);
    // it may end in an empty line
    fn cut(mut b: &[u8]) -> &[u8] {
        while b.ends_with(b"\r\n") { b = &b[..b.len() - 2]; }
        b
    }
    check(cut(&p) == cut(w.as_bytes()) && !cut(&p).is_empty(), 2);
    check(p.ends_with(b"\r\n"), 3);
    cover(1);
}

/// params: what is written (0 calendar, 1 event, 2 to-do, 3 venue, 4 other, 5 alarm, 6 parsed calendar, 7 parsed property), text
/// chars, kind of refusal (0 from some call on, 1 at one call only, 2 at some size)
/// a writer's refusal is reported, whenever it comes, and what it took until then is the beginning of the whole
fn h_refuse() {
    let t = text(param(1), &ASCII.minus(Set::of(b"\r")), 0);
    let mut e = Event::new();
    e.uid("1").append_property(("DTSTAMP", "20240101T000000Z")).summary(&t).add_multi_property("COMMENT", "a").add_multi_property("COMMENT", &"c".repeat(80));
    e.append_property(Property::new("X-P", "1").add_parameter("X-Q", "a:b").done());
    let a = alarm(0);
    macro_rules! run { ($x:expr) => {{ let x = $x; refuse(param(2), &mut |w: &mut Picky| x.fmt_write(w)) }} }
    macro_rules! show { ($x:expr) => {{ let x = $x; refuse(param(2), &mut |w: &mut Picky| write!(w, "{}", x)) }} }
    match param(0) {
        0 => {
            e.alarm(a);
            let mut c = Calendar::new();
            c.name(&t).push(e).push(comp(1, "2")).push(comp(3, "3"));
            show!(c)
        }
        1 => {
            // what is added when it is not set
            let mut f = Event::new();
            f.summary(&t).alarm(a);
            run!(f)
        }
        2 => run!(Todo::new().uid("1").append_property(("DTSTAMP", "20240101T000000Z")).description(&t).alarm(a).done()),
        3 => run!(Venue::new().uid("1").append_property(("DTSTAMP", "20240101T000000Z")).street_address(&t).done()),
        4 => {
            let d = ["BEGIN:X-OTHER\r\nUID:1\r\nDTSTAMP:1\r\nX-V:", &"a".repeat(80), "\r\nBEGIN:X-IN\r\nUID:2\r\nDTSTAMP:1\r\nX-V:b\r\nEND:X-IN\r\nEND:X-OTHER\r\n"].concat();
            match d.parse() {
                Ok(CalendarComponent::Other(o)) => run!(o),
                _ => fail(4),
            }
        }
        5 => run!(a),
        k => {
            let mut c = Calendar::new();
            e.alarm(a);
            c.name(&t).push(e).push(comp(1, "2"));
            let d = c.to_string();
            let d = icalendar::parser::unfold(&d);
            match read_calendar(&d) {
                Ok(c) if k == 6 => show!(c),
                Ok(c) => show!(c.components[0].properties[fork(3)].clone()),
                Err(_) => fail(5),
            }
        }
    }
}

/// params: most components
/// documents are well-formed and all ways of writing agree
fn h_well_struct() {
    let n = fork(param(0) + 1);
    let how = fork(7);
    let e = how == 1;
    let mut c = match how {
        0 => Calendar::new(),
        1 => Calendar::empty(),
        2 => Calendar::default(),
        3 => Calendar::from([] as [Event; 0]),
        4 => Vec::<CalendarComponent>::new().into_iter().collect(),
        5 => Calendar::new().done(),
        _ => { let mut x = Calendar::from(Event::new()); x.components.clear(); x }
    };
    for i in 0..n {
        let k = fork(4);
        match comp(k, DIG[i]) {
            CalendarComponent::Event(mut e) => {
                for j in 0..fork(3) { e.alarm(alarm(j)); }
                if fork(2) == 1 {
                    e.add_multi_property("ATTENDEE", "mailto:a").add_multi_property("COMMENT", "b").summary("s");
                }
                let w = e.to_string();
                check(e.try_into_string() == Ok(w.clone()), 1);
                if let Some(t) = wellformed(&w) {
                    check(t.len() == 1 && t[0].name == b"VEVENT", 2);
                }
                c.push(e);
            }
            CalendarComponent::Todo(mut e) => {
                for j in 0..fork(2) { e.alarm(alarm(j).add_multi_property("ATTACH", "c").done()); }
                if fork(2) == 1 {
                    e.add_multi_property("ATTACH", "c").url("u:v");
                }
                let w = e.to_string();
                check(e.try_into_string() == Ok(w.clone()), 3);
                if let Some(t) = wellformed(&w) {
                    check(t.len() == 1 && t[0].name == b"VTODO", 4);
                }
                c.push(e);
            }
            x => { c.push(x); }
        }
    }
    let w = c.to_string();
    let r: Result<String, _> = (&c).try_into();
    check(r == Ok(w.clone()), 5);
    check(format!("{}", c) == w, 6);
    emit(w.as_bytes());
    if let Some(t) = wellformed(&w) {
        check(t.len() == 1 && t[0].name == b"VCALENDAR" && t[0].kids.len() == n, 7);
        headed(&t[0], !e as usize);
        check(t[0].props.len() == if e { 0 } else { 3 }, 8);
        cover(1);
    }
}

/// params: component (0 event, 1 to-do, 2 venue), steps
/// setting a property again replaces it; other properties stay; done() hands everything over
fn h_builder() {
    fn run<C: Component + PartialEq + Clone>(mut e: C, done: fn(&mut C) -> C, into: fn(C) -> CalendarComponent, steps: usize) {
        // model: value and parameter of SUMMARY, DESCRIPTION, X-Q
        let names = ["SUMMARY", "DESCRIPTION", "X-Q", "URL", "PRIORITY"];
        let mut m: [Option<(String, Option<String>)>; 5] = Default::default();
        for i in 0..steps {
            let v = [DIG[i], &string(1, &PRINT)].concat();
            match fork(8) {
                0 => { e.summary(&v); m[0] = Some((v, None)); }
                1 => { e.description(&v); m[1] = Some((v, None)); }
                2 => { e.add_property("SUMMARY", &*v); m[0] = Some((v, None)); }
                3 => { e.append_property(Property::new("SUMMARY", &*v).add_parameter("X-A", "1").done()); m[0] = Some((v, Some("1".into()))); }
                4 => { e.append_property(Property::new("X-Q", &*v).add_parameter("X-A", "1").add_parameter("X-A", "2").done()); m[2] = Some((v, Some("2".into()))); }
                5 => { e.url(&v); m[3] = Some((v, None)); }
                6 => { e.priority(i as u32); m[4] = Some((DIG[i].into(), None)); }
                _ => {
                    let f = done(&mut e);
                    check(e.properties().is_empty() && e.multi_properties().is_empty() && e.components().is_empty(), 1);
                    e = f;
                }
            }
            let n = m.iter().filter(|x| x.is_some()).count();
            check(e.properties().len() == n, 2);
            for (name, x) in names.iter().zip(&m) {
                check(e.property_value(name) == x.as_ref().map(|x| &*x.0), 3);
                if let Some((_, p)) = x {
                    let q = e.properties().get(*name);
                    check(q.map(|q| q.params().len()) == Some(p.is_some() as usize), 4);
                    check(q.and_then(|q| q.params().get("X-A")).map(|q| q.value()) == p.as_deref(), 5);
                }
            }
        }
        check(e.get_summary() == m[0].as_ref().map(|x| &*x.0) && e.get_description() == m[1].as_ref().map(|x| &*x.0) && e.get_url() == m[3].as_ref().map(|x| &*x.0), 6);
        let w = e.to_string();
        let lines = match ref_lines(w.as_bytes()) { Some(l) => l, None => return fail(7) };
        for (name, x) in names.iter().zip(&m) {
            check(named(&lines, name).len() == x.is_some() as usize, 8);
        }
        let f = e.clone();
        check(f == e, 9);
        let c = into(e);
        check(tree_of(dynof(&c)) == tree_of(&f as &dyn DynComp), 10);
        for l in &lines {
            if !starts(l, b"UID:") && !starts(l, b"DTSTAMP:") {
                emit(l);
            }
        }
        cover(1);
    }
    match param(0) {
        0 => run(Event::new(), Event::done, CalendarComponent::Event, param(1)),
        1 => run(Todo::new(), Todo::done, CalendarComponent::Todo, param(1)),
        _ => run(Venue::new(), Venue::done, CalendarComponent::Venue, param(1)),
    }
}
}
