//! Dates, times, durations, triggers, time zones
use crate::sx::*;
use crate::util::*;
use chrono::{DateTime, Duration, NaiveDate, NaiveDateTime, TimeZone, Utc};
use icalendar::*;

/// date and time in fields (the harness' own representation)
#[derive(Clone, Copy, PartialEq)]
struct Fields {
    y: i32,
    mo: u32,
    d: u32,
    h: u32,
    mi: u32,
    s: u32,
}
fn days_in(y: i32, mo: u32) -> u32 {
    match mo {
        2 => if (y % 4 == 0 && y % 100 != 0) || y % 400 == 0 { 29 } else { 28 },
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}
impl Fields {
    fn valid(&self) -> bool {
        self.mo >= 1 && self.mo <= 12 && self.d >= 1 && self.d <= days_in(self.y, self.mo) && self.h < 24 && self.mi < 60 && self.s < 60
    }
    fn date(&self) -> NaiveDate {
        match NaiveDate::from_ymd_opt(self.y, self.mo, self.d) {
            Some(d) => d,
            None => { fail(99); unreachable!() }
        }
    }
    fn naive(&self) -> NaiveDateTime {
        match self.date().and_hms_opt(self.h, self.mi, self.s) {
            Some(d) => d,
            None => { fail(98); unreachable!() }
        }
    }
    fn utc(&self) -> DateTime<Utc> {
        Utc.from_utc_datetime(&self.naive())
    }
    /// RFC 5545 3.3.4
    fn date_text(&self) -> Vec<u8> {
        let mut o = Vec::with_capacity(24);
        digits(&mut o, self.y as u32, 4);
        digits(&mut o, self.mo, 2);
        digits(&mut o, self.d, 2);
        o
    }
    /// RFC 5545 3.3.5
    fn text(&self) -> Vec<u8> {
        let mut o = self.date_text();
        o.push(b'T');
        digits(&mut o, self.h, 2);
        digits(&mut o, self.mi, 2);
        digits(&mut o, self.s, 2);
        o
    }
}
fn digits(o: &mut Vec<u8>, v: u32, n: u32) {
    let mut k = 10u32.pow(n - 1);
    while k > 0 {
        o.push(b'0' + (v / k % 10) as u8);
        k /= 10;
    }
}
/// fields, which of them are symbolic: 0 day of a given year, 1 year (256 of them), 2 hour and minute, 3 second, 4 everything
/// out of a few values, 5 any year from 0 to 9999, 6 day of 256 years
fn fields(which: usize, year: i32) -> Fields {
    let mut f = Fields { y: year, mo: 3, d: 7, h: 9, mi: 8, s: 5 };
    match which {
        0 => {
            f.mo = 1 + fork(12) as u32;
            f.d = 1 + choose(31) as u32;
            assume(f.d <= days_in(f.y, f.mo));
        }
        1 => f.y = year + choose(256) as i32,
        2 => {
            f.h = choose(24) as u32;
            f.mi = choose(60) as u32;
        }
        3 => f.s = choose(60) as u32,
        5 => {
            f.y = 256 * fork(40) as i32 + choose(256) as i32;
            assume(f.y < 10000);
        }
        6 => {
            f.y = year + fork(256) as i32;
            f.mo = 1 + fork(12) as u32;
            f.d = 1 + choose(31) as u32;
            assume(f.d <= days_in(f.y, f.mo));
        }
        _ => {
            f.y = [0, 9, 99, 1582, 1900, 1970, 2000, 2024, 2100, 9999][fork(10)];
            let (mo, d) = [(1, 1), (2, 28), (2, 29), (10, 10), (12, 31)][fork(5)];
            assume(d <= days_in(f.y, mo));
            f.mo = mo;
            f.d = d;
            let (h, mi, s) = [(0, 0, 0), (23, 59, 59), (12, 0, 1)][fork(3)];
            f.h = h;
            f.mi = mi;
            f.s = s;
        }
    }
    f
}
const TZIDS: [&str; 9] = ["Europe/Berlin", "America/Argentina/Buenos_Aires", "Etc/GMT+5", "/example.org/W. Europe Standard Time", "(UTC+01:00) Amsterdam; Bern", "X", "UTC", "Etc/UTC", "GMT"];

/// form: 0 UTC, 1 floating, 2 date, 3.. with time zone; value, wire value, parameter
fn dpt(form: usize, f: &Fields) -> (DatePerhapsTime, Vec<u8>, Option<(&'static str, &'static str)>) {
    match form {
        0 => (f.utc().into(), [f.text(), b"Z".to_vec()].concat(), None),
        1 => (f.naive().into(), f.text(), None),
        2 => (f.date().into(), f.date_text(), Some(("VALUE", "DATE"))),
        _ => {
            let z = TZIDS[form - 3];
            (CalendarDateTime::WithTimezone { date_time: f.naive(), tzid: z.to_string() }.into(), f.text(), Some(("TZID", z)))
        }
    }
}
/// the content line has this value and (at most) this parameter
fn line_is(lines: &[Vec<u8>], name: &str, value: &[u8], par: Option<(&str, &str)>) -> bool {
    let v = named(lines, name);
    if v.len() != 1 {
        return false;
    }
    match ref_content_line(v[0]) {
        Some(l) => {
            let p = match par {
                Some((k, v)) => l.params.len() == 1 && l.params[0].0 == k.as_bytes() && l.params[0].1 == v.as_bytes(),
                None => l.params.is_empty(),
            };
            p && l.value == value
        }
        None => false,
    }
}

// ---------------------------------------------------------------- durations
/// RFC 5545 3.3.6 in seconds
fn ref_dur(b: &[u8]) -> Option<i64> {
    let mut i = 0;
    let mut neg = false;
    if i < b.len() && (b[i] == b'-' || b[i] == b'+') {
        neg = b[i] == b'-';
        i += 1;
    }
    if i >= b.len() || b[i] != b'P' {
        return None;
    }
    i += 1;
    let mut total = 0i64;
    let mut time = false;
    let mut last = 0; // units must go down
    let mut any = false;
    while i < b.len() {
        if b[i] == b'T' {
            if time {
                return None;
            }
            time = true;
            last = 0;
            i += 1;
            any = false;
            continue;
        }
        let mut v = 0i64;
        let k = i;
        while i < b.len() && b[i].is_ascii_digit() {
            v = v * 10 + (b[i] - b'0') as i64;
            i += 1;
        }
        if k == i || i == b.len() {
            return None;
        }
        let (rank, f) = match (b[i], time) {
            (b'W', false) => (9, 604800),
            (b'D', false) => (1, 86400),
            (b'H', true) => (1, 3600),
            (b'M', true) => (2, 60),
            (b'S', true) => (3, 1),
            _ => return None,
        };
        if rank <= last {
            return None;
        }
        last = rank;
        total += v * f;
        i += 1;
        any = true;
    }
    if any { Some(if neg { -total } else { total }) } else { None }
}
fn kid_prop(c: &Calendar, name: &str) -> Option<Property> {
    dynof(c.components.first()?).kids().first()?.props().get(name).cloned()
}

crate::harnesses! {
/// params: form (0..8, 9 all), symbolic fields, year
/// start, end and due come back as they were set, and are written as RFC 5545 says
fn h_dt() {
    let form = if param(0) >= 9 { fork(12) } else { param(0) };
    let f = fields(param(1), param(2) as i32);
    let (v, text, par) = dpt(form, &f);
    let mut c = Calendar::new();
    let mut e = Event::new();
    let mut t = Todo::new();
    if form == 2 && fork(2) == 1 {
        e.all_day(f.date());
        t.all_day(f.date());
    } else {
        e.starts(v.clone()).ends(v.clone());
        t.starts(v.clone()).ends(v.clone());
    }
    t.due(v.clone());
    check(e.get_start().as_ref() == Some(&v) && e.get_end().as_ref() == Some(&v), 1);
    check(t.get_start().as_ref() == Some(&v) && t.get_end().as_ref() == Some(&v) && t.get_due().as_ref() == Some(&v), 2);
    check(v.date_naive() == f.date() && NaiveDate::from(v.clone()) == f.date(), 3);
    c.push(e.done()).push(t.done());
    let w = c.to_string();
    emit_wire(&w);
    let lines = match ref_lines(w.as_bytes()) { Some(l) => l, None => return fail(4) };
    match ref_tree(&lines) {
        Some(r) => {
            check(r.len() == 1 && r[0].kids.len() == 2, 5);
            let (a, b) = (&r[0].kids[0].props, &r[0].kids[1].props);
            check(line_is(a, "DTSTART", &text, par) && line_is(a, "DTEND", &text, par), 6);
            check(line_is(b, "DTSTART", &text, par) && line_is(b, "DTEND", &text, par) && line_is(b, "DUE", &text, par), 7);
        }
        None => fail(8),
    }
    match w.parse::<Calendar>() {
        Ok(d) => match &d.components[..] {
            [CalendarComponent::Event(e), CalendarComponent::Todo(t)] => {
                check(e.get_start().as_ref() == Some(&v) && e.get_end().as_ref() == Some(&v), 9);
                check(t.get_start().as_ref() == Some(&v) && t.get_end().as_ref() == Some(&v) && t.get_due().as_ref() == Some(&v), 10);
                cover(1);
            }
            _ => fail(11),
        },
        Err(_) => fail(12),
    }
}

/// params: symbolic fields, year
/// DTSTAMP, CREATED, LAST-MODIFIED and COMPLETED are UTC date-times
fn h_dt_utc() {
    let f = fields(param(0), param(1) as i32);
    let u = f.utc();
    let text = [f.text(), b"Z".to_vec()].concat();
    // one second apart, so that one is not taken for another
    let u2 = Utc.from_utc_datetime(&Fields { y: 2001, mo: 2, d: 3, h: 4, mi: 5, s: 6 }.naive());
    let k = fork(4);
    let at = |i: usize| if i == k { u } else { u2 };
    let mut c = Calendar::new();
    c.push(Event::new().timestamp(at(0)).created(at(1)).last_modified(at(2)).done());
    c.push(Todo::new().timestamp(at(0)).created(at(1)).last_modified(at(2)).completed(at(3)).done());
    c.push(Venue::new().timestamp(at(0)).created(at(1)).last_modified(at(2)).done());
    let w = c.to_string();
    emit_wire(&w);
    let lines = match ref_lines(w.as_bytes()) { Some(l) => l, None => return fail(1) };
    let name = ["DTSTAMP", "CREATED", "LAST-MODIFIED", "COMPLETED"][k];
    let l = named(&lines, name);
    check(l.len() == if k == 3 { 1 } else { 3 }, 2);
    for x in l {
        match ref_content_line(x) {
            Some(l) => check(l.value == text && l.params.is_empty(), 3),
            None => fail(4),
        }
    }
    match w.parse::<Calendar>() {
        Ok(d) => {
            match &d.components[..] {
                [CalendarComponent::Event(e), CalendarComponent::Todo(t), CalendarComponent::Venue(v)] => {
                    check(e.get_timestamp() == Some(at(0)) && e.get_created() == Some(at(1)) && e.get_last_modified() == Some(at(2)), 5);
                    check(t.get_timestamp() == Some(at(0)) && t.get_created() == Some(at(1)) && t.get_last_modified() == Some(at(2)) && t.get_completed() == Some(at(3)), 6);
                    check(v.get_timestamp() == Some(at(0)) && v.get_created() == Some(at(1)) && v.get_last_modified() == Some(at(2)), 7);
                    cover(1);
                }
                _ => fail(8),
            }
        }
        Err(_) => fail(9),
    }
}

/// params: form (0 UTC, 1 floating, 2 date, 3 time zone), first and last symbolic digit
/// dates and times of other writers are read as RFC 5545 says, and what is none is not; both readers agree
fn h_dt_read() {
    let form = param(0);
    let mut t = b"20240229T235958".to_vec();
    for i in param(1)..=param(2) {
        if i != 8 { t[i] = byte(&DIGIT); }
    }
    if form == 2 { t.truncate(8); }
    let n = |a: usize, b: usize| -> u32 {
        let mut v = 0;
        for i in a..b { v = v * 10 + (t[i] - b'0') as u32; }
        v
    };
    let mut f = Fields { y: n(0, 4) as i32, mo: n(4, 6), d: n(6, 8), h: 0, mi: 0, s: 0 };
    if form != 2 {
        f.h = n(9, 11);
        f.mi = n(11, 13);
        f.s = n(13, 15);
        // leap seconds are not claimed
        assume(f.s != 60);
    }
    let v = s([&t[..], if form == 0 { b"Z" } else { b"" }].concat());
    emit(v.as_bytes());
    let par = [";X-A=1", ";X-A=1", ";VALUE=DATE", ";TZID=Europe/Berlin"][form];
    let par2 = ["", ";VALUE=DATE-TIME", ";VALUE=DATE;X-A=\"a:b\"", ";X-A=\"a:b\";TZID=\"Europe/Berlin\""][form];
    let doc = ["BEGIN:VTODO\r\nDTSTART", par, ":", &v, "\r\nDTEND", par2, ":", &v, "\r\nDUE", par, ":", &v, "\r\nCOMPLETED:", &v, "\r\nCREATED:", &v, "\r\nEND:VTODO\r\n"].concat();
    let want = if f.valid() { Some(dpt(form, &f).0) } else { None };
    match doc.parse::<CalendarComponent>() {
        Ok(CalendarComponent::Todo(t)) => {
            check(t.get_start() == want && t.get_end() == want && t.get_due() == want, 1);
            let u = if form == 0 && f.valid() { Some(f.utc()) } else { None };
            check(t.get_completed() == u && t.get_created() == u && t.get_last_modified().is_none(), 2);
        }
        _ => fail(3),
    }
    let r = v.parse::<CalendarDateTime>().ok().map(DatePerhapsTime::from);
    check(r == if f.valid() && form != 2 { Some(dpt((form != 0) as usize, &f).0) } else { None }, 7);
    let par3 = [";X-A=1;X-B=2", ";X-B=1;VALUE=DATE-TIME;X-A=\"a:b\"", ";X-A=1;VALUE=DATE;X-B=2", ";TZID=Europe/Berlin;VALUE=DATE-TIME;X-A=1"][form];
    let l = ["DTSTART", [par, par2, par3][fork(3)], ":", &v, "\r\n"].concat();
    match parser::Property::try_from(&*l) {
        Ok(p) => {
            let r = DatePerhapsTime::try_from(&p).ok();
            check(r == want, 4);
            if let Some(r) = r {
                check(r.date_naive() == f.date() && NaiveDate::from(r) == f.date(), 5);
                cover(1);
            } else {
                cover(2);
            }
        }
        Err(_) => fail(6),
    }
}

/// params: form (0 UTC, 1 floating, 2 date)
/// a date or time one character of which is something else is no date
fn h_dt_bad() {
    let form = param(0);
    let mut t = [&b"20240229T235958Z"[..], b"20240229T235958", b"20240229"][form].to_vec();
    let k = fork(t.len());
    // white space and signs, and a number of one digit (which chrono takes) are not claimed
    let ok = if k == 8 { Set::of(b"T") } else if k == 15 { Set::of(b"Z") } else { DIGIT };
    let not = if form == 1 && k == 14 { Set::of(b"+-Z") } else { Set::of(b"+-") };
    t[k] = byte(&Set::range(33, 126).minus(ok).minus(not));
    let v = s(t);
    emit(v.as_bytes());
    let par = ["", "", ";VALUE=DATE"][form];
    let doc = ["BEGIN:VTODO\r\nDTSTART", par, ":", &v, "\r\nDUE", par, ":", &v, "\r\nCOMPLETED:", &v, "\r\nDTSTAMP:", &v, "\r\nEND:VTODO\r\n"].concat();
    match doc.parse::<CalendarComponent>() {
        Ok(CalendarComponent::Todo(t)) => {
            check(t.get_start().is_none() && t.get_due().is_none(), 1);
            check(t.get_completed().is_none() && t.get_timestamp().is_none(), 2);
            check(t.property_value("DTSTART") == Some(&v), 3);
            cover(1);
        }
        _ => fail(4),
    }
}

/// params: base, how many times 256 from there, unit (0 seconds, 1 minutes, 2 hours, 3 days, 4 weeks)
/// relative triggers: RFC 5545 duration on the wire, the same trigger when read
fn h_trigger() {
    let n = param(0) as i64 + 256 * fork(param(1)) as i64 + choose(256) as i64;
    let neg = fork(2) == 1;
    let (d, f) = match param(2) {
        0 => (Duration::seconds(n), 1),
        1 => (Duration::minutes(n), 60),
        2 => (Duration::hours(n), 3600),
        3 => (Duration::days(n), 86400),
        _ => (Duration::weeks(n), 604800),
    };
    let secs = n * f;
    let (t, neg) = match fork(7) {
        0 => (Trigger::from(if neg { -d } else { d }), neg),
        1 => (Trigger::from((if neg { -d } else { d }, Related::Start)), neg),
        2 => (Trigger::from((if neg { -d } else { d }, Related::End)), neg),
        3 => (Trigger::after_start(d), false),
        4 => (Trigger::after_end(d), false),
        5 => (Trigger::before_start(d), true),
        _ => (Trigger::before_end(d), true),
    };
    let secs = if neg { -secs } else { secs };
    check(t.as_duration() == Some(&Duration::seconds(secs)) && t.as_date_time().is_none(), 1);
    let rel = t.related();
    let mut c = Calendar::new();
    let a = if fork(2) == 1 { Alarm::audio(t.clone()) } else { Alarm::display("x", t.clone()) };
    c.push(Event::new().alarm(a).done());
    let w = c.to_string();
    emit_wire(&w);
    let lines = match ref_lines(w.as_bytes()) { Some(l) => l, None => return fail(2) };
    let l = named(&lines, "TRIGGER");
    check(l.len() == 1, 3);
    match ref_content_line(l[0]) {
        Some(l) => {
            check(ref_dur(&l.value) == Some(secs), 4);
            match rel {
                None => check(l.params.is_empty(), 5),
                Some(r) => check(l.params.len() == 1 && l.params[0].0 == b"RELATED" && l.params[0].1 == if r == Related::Start { &b"START"[..] } else { b"END" }, 6),
            }
        }
        None => fail(7),
    }
    match w.parse::<Calendar>() {
        Ok(d) => match kid_prop(&d, "TRIGGER") {
            Some(p) => {
                match Trigger::try_from(&p) {
                    Ok(u) => {
                        check(u == t && u.related() == rel, 8);
                        cover(1);
                    }
                    Err(_) => fail(9),
                }
            }
            None => fail(10),
        },
        Err(_) => fail(11),
    }
}

/// params: form of date-time, symbolic fields, year
/// absolute triggers
fn h_trigger_abs() {
    let form = [0, 1, 3, 4, 5, 6, 7, 8, 9, 10, 11][if param(0) >= 8 { fork(11) } else { param(0) }];
    let f = fields(param(1), param(2) as i32);
    let (v, text, par) = dpt(form, &f);
    let cdt = match v { DatePerhapsTime::DateTime(d) => d, _ => unreachable!() };
    let t = Trigger::from(cdt.clone());
    check(t.as_date_time() == Some(&cdt) && t.as_duration().is_none() && t.related().is_none(), 1);
    let mut c = Calendar::new();
    c.push(Todo::new().alarm(Alarm::display("x", t.clone())).done());
    let w = c.to_string();
    let lines = match ref_lines(w.as_bytes()) { Some(l) => l, None => return fail(2) };
    let l = named(&lines, "TRIGGER");
    check(l.len() == 1, 3);
    match ref_content_line(l[0]) {
        Some(l) => {
            emit(&l.value);
            check(l.value == text, 4);
            let mut n = 0;
            for (k, v) in &l.params {
                if k == b"VALUE" {
                    check(v == b"DATE-TIME", 5);
                    n += 1;
                } else {
                    check(par.map(|(a, b)| k == a.as_bytes() && v == b.as_bytes()) == Some(true), 6);
                }
            }
            check(n == 1 && l.params.len() == 1 + par.is_some() as usize, 7);
        }
        None => fail(8),
    }
    match w.parse::<Calendar>() {
        Ok(d) => match kid_prop(&d, "TRIGGER") {
            Some(p) => {
                check(Trigger::try_from(&p) == Ok(t), 9);
                cover(1);
            }
            None => fail(10),
        },
        Err(_) => fail(11),
    }
}

/// params: skeleton, digits per number
/// durations of other writers
fn h_dur_read() {
    let k = param(1);
    let mut t = vec![];
    let sign = fork(3);
    if sign > 0 { t.push(b"+-"[sign - 1]); }
    for c in ["PW", "PD", "PDTHMS", "PTH", "PTM", "PTS", "PTHM", "PTMS", "PTHMS", "PDTH", "PDTM", "PDTS"][param(0)].bytes() {
        if c == b'W' || c == b'D' || c == b'H' || c == b'M' || c == b'S' {
            for _ in 0..k { t.push(byte(&DIGIT)); }
        }
        t.push(c);
    }
    let want = ref_dur(&t);
    let t = s(t);
    emit(t.as_bytes());
    let rel = fork(3);
    let p = Property::new("TRIGGER", &*t);
    let mut p = p;
    if rel > 0 { p.append_parameter([Related::Start, Related::End][rel - 1]); }
    if fork(2) == 1 { p.append_parameter(ValueType::Duration); }
    match (Trigger::try_from(&p), want) {
        (Ok(u), Some(n)) => {
            check(u.as_duration() == Some(&Duration::seconds(n)), 1);
            check(u.related() == [None, Some(Related::Start), Some(Related::End)][rel], 2);
            cover(1);
        }
        _ => fail(3),
    }
    if sign == 0 {
        let name = fork(2);
        let d = ["BEGIN:VCALENDAR\r\n", ["REFRESH-INTERVAL;VALUE=DURATION:", "X-PUBLISHED-TTL:"][name], &t, "\r\nEND:VCALENDAR\r\n"].concat();
        match d.parse::<Calendar>() {
            Ok(c) => check(c.get_ttl().map(|x| x.num_seconds()) == want, 4),
            Err(_) => fail(5),
        }
    }
}

/// params: chars, unicode?
/// what is no duration is no trigger, and no refresh interval
fn h_dur_bad() {
    // what follows a duration is not claimed
    let v = match fork(3) {
        0 => text(param(0), &PRINT.minus(Set::of(b"P+-")), param(1)),
        1 => ["-", &text(param(0), &PRINT.minus(Set::of(b"P")), param(1))].concat(),
        _ => ["", "-", "5M", "2024-01-01", "T5M", "20240101T000000Z"][fork(6)].to_string(),
    };
    emit(v.as_bytes());
    check(Trigger::try_from(&Property::new("TRIGGER", &*v)).is_err(), 1);
    check(Trigger::try_from(&Property::new("DURATION", "PT5M")).is_err(), 2);
    check(Trigger::try_from(&Property::new("TRIGGER", "PT5M").append_parameter(ValueType::Text).done()).is_err(), 3);
    check(Trigger::try_from(&Property::new("TRIGGER", "PT5M").append_parameter(ValueType::DateTime).done()).is_err(), 4);
    let mut c = Calendar::new();
    c.append_property(("REFRESH-INTERVAL", &*v));
    check(c.get_ttl().is_none(), 5);
    c.append_property(("X-PUBLISHED-TTL", "PT5M"));
    check(c.get_ttl() == Some(Duration::minutes(5)), 6);
    cover(1);
}

/// params: base, how many times 256 from there, unit
/// refresh interval
fn h_ttl() {
    let n = param(0) as i64 + 256 * fork(param(1)) as i64 + choose(256) as i64;
    let (d, f) = match param(2) {
        0 => (Duration::seconds(n), 1),
        1 => (Duration::minutes(n), 60),
        2 => (Duration::hours(n), 3600),
        3 => (Duration::days(n), 86400),
        _ => (Duration::weeks(n), 604800),
    };
    let mut c = Calendar::new();
    let again = fork(2) == 1;
    if again {
        c.ttl(&Duration::seconds(77));
        c.append_property(("X-KEEP", "1"));
    }
    c.ttl(&d);
    check(c.get_ttl() == Some(d), 1);
    check(c.properties.len() == 5 + again as usize, 11);
    let p = Property::from(d);
    check(p.key() == "DURATION" && p.params().is_empty() && ref_dur(p.value().as_bytes()) == Some(n * f), 12);
    let w = c.to_string();
    emit_wire(&w);
    let lines = match ref_lines(w.as_bytes()) { Some(l) => l, None => return fail(2) };
    for (k, par) in [("REFRESH-INTERVAL", true), ("X-PUBLISHED-TTL", false)] {
        let l = named(&lines, k);
        check(l.len() == 1, 3);
        match ref_content_line(l[0]) {
            Some(l) => {
                check(ref_dur(&l.value) == Some(n * f), 4);
                if par { check(l.params.len() == 1 && l.params[0].0 == b"VALUE" && l.params[0].1 == b"DURATION", 5); }
            }
            None => fail(6),
        }
    }
    match w.parse::<Calendar>() {
        Ok(mut e) => {
            check(e.get_ttl() == Some(d), 7);
            // either property will do
            let k = fork(2);
            e.properties.retain(|p| p.key() != ["REFRESH-INTERVAL", "X-PUBLISHED-TTL"][k]);
            check(e.get_ttl() == Some(d), 8);
            e.properties.retain(|p| p.key() != ["REFRESH-INTERVAL", "X-PUBLISHED-TTL"][1 - k]);
            check(e.get_ttl().is_none(), 9);
            cover(1);
        }
        Err(_) => fail(10),
    }
}

/// params: base, how many times 256 from there, the same for the count
/// alarms: action, repetition
fn h_alarm() {
    let n = param(0) as i64 + 256 * fork(param(1)) as i64 + choose(256) as i64;
    let r = (param(2) as u32).wrapping_add(256 * fork(param(3)) as u32 + choose(256) as u32);
    let k = fork(2);
    let a = if k == 0 { Alarm::audio(Duration::minutes(-5)) } else { Alarm::display("Wake up, now", Duration::minutes(-5)) };
    let a = a.duration_and_repeat(Duration::seconds(n), r);
    let a = if fork(2) == 1 { a.clone().done() } else { a };
    let mut c = Calendar::new();
    if fork(2) == 1 { c.push(Event::new().alarm(a).done()); } else { c.push(Todo::new().alarm(a).done()); }
    let w = c.to_string();
    emit_wire(&w);
    let lines = match ref_lines(w.as_bytes()) { Some(l) => l, None => return fail(1) };
    match ref_tree(&lines) {
        Some(t) => {
            let x = &t[0].kids[0].kids;
            check(x.len() == 1 && x[0].name == b"VALARM", 2);
            let p = &x[0].props;
            let want: &[u8] = if k == 0 { b"AUDIO" } else { b"DISPLAY" };
            check(line_is(p, "ACTION", want, None), 3);
            check(named(p, "DESCRIPTION").len() == k, 4);
            let l = named(p, "DURATION");
            check(l.len() == 1 && ref_dur(&l[0][9..]) == Some(n), 5);
            let l = named(p, "REPEAT");
            check(l.len() == 1, 6);
            let mut v = 0u64;
            for c in &l[0][7..] {
                check(c.is_ascii_digit(), 7);
                v = v * 10 + (*c - b'0') as u64;
            }
            check(v == r as u64, 8);
        }
        None => fail(9),
    }
    match w.parse::<Calendar>() {
        Ok(d) => {
            check(kid_prop(&d, "ACTION").map(|p| p.value() == ["AUDIO", "DISPLAY"][k]) == Some(true), 10);
            check(kid_prop(&d, "DESCRIPTION").map(|p| p.value() == "Wake up, now") == if k == 1 { Some(true) } else { None }, 11);
            check(kid_prop(&d, "REPEAT").and_then(|p| p.value().parse().ok()) == Some(r), 12);
            cover(1);
        }
        Err(_) => fail(13),
    }
}

/// params: case (12 all), minutes before, quarter days
/// local times with a time zone in UTC, around the changes of the clocks
fn h_utc() {
    // zone, local time at which the old offset ends (in the old offset), minutes east before and after
    let (z, f, a, b) = [
        ("Europe/Berlin", Fields { y: 2024, mo: 3, d: 31, h: 2, mi: 0, s: 0 }, 60, 120),
        ("Europe/Berlin", Fields { y: 2024, mo: 10, d: 27, h: 3, mi: 0, s: 0 }, 120, 60),
        ("America/New_York", Fields { y: 2024, mo: 3, d: 10, h: 2, mi: 0, s: 0 }, -300, -240),
        ("America/New_York", Fields { y: 2023, mo: 11, d: 5, h: 2, mi: 0, s: 0 }, -240, -300),
        ("Australia/Lord_Howe", Fields { y: 2024, mo: 4, d: 7, h: 2, mi: 0, s: 0 }, 660, 630),
        ("Australia/Lord_Howe", Fields { y: 2024, mo: 10, d: 6, h: 2, mi: 0, s: 0 }, 630, 660),
        ("Asia/Kolkata", Fields { y: 2024, mo: 1, d: 1, h: 0, mi: 0, s: 0 }, 330, 330),
        ("Asia/Kathmandu", Fields { y: 1986, mo: 1, d: 1, h: 0, mi: 0, s: 0 }, 330, 345),
        ("UTC", Fields { y: 2024, mo: 2, d: 29, h: 0, mi: 0, s: 0 }, 0, 0),
        ("Etc/GMT+5", Fields { y: 2024, mo: 2, d: 29, h: 0, mi: 0, s: 0 }, -300, -300),
        ("Pacific/Apia", Fields { y: 2011, mo: 12, d: 30, h: 0, mi: 0, s: 0 }, -600, 840),
        ("Africa/Monrovia", Fields { y: 2024, mo: 1, d: 1, h: 0, mi: 0, s: 0 }, 0, 0),
    ][if param(0) >= 12 { fork(12) } else { param(0) }];
    // minutes from there
    let lo = -(param(1) as i64) + 256 * fork(param(2)) as i64;
    let m = lo + choose(256) as i64;
    let local = f.naive() + Duration::minutes(m) + Duration::seconds(59 * fork(2) as i64);
    let t = CalendarDateTime::WithTimezone { date_time: local, tzid: z.to_string() };
    // before the change the offset is a, after it is b; the local time exists once, twice or never
    let gap = b - a;
    let before = m < 0;
    let after = m >= gap;
    let want = match (before, after) {
        (true, true) => None,
        (false, false) => None,
        (true, false) => Some(local - Duration::minutes(a)),
        (false, true) => Some(local - Duration::minutes(b)),
    };
    let got = t.try_into_utc();
    check(got.map(|x| x.naive_utc()) == want, 1);
    if got.is_some() { cover(1); } else { cover(2); }
    check(CalendarDateTime::Floating(local).try_into_utc().is_none(), 3);
    let u = Utc.from_utc_datetime(&local);
    check(CalendarDateTime::Utc(u).try_into_utc() == Some(u), 4);
}

/// params: first zone, zones, step in days
/// every zone chrono-tz knows, at any time of the days around: the zone's own rules decide
fn h_utc_zones() {
    let all = chrono_tz::TZ_VARIANTS;
    let lo = param(0).min(all.len());
    let hi = (param(0) + param(1)).min(all.len());
    let tz = all[lo + fork(hi - lo)];
    let day = Fields { y: 2024, mo: 1, d: 1, h: 0, mi: 0, s: 0 }.naive() + Duration::days((fork(366 / param(2)) * param(2)) as i64);
    let local = day + Duration::minutes(6 * choose(240) as i64);
    let name = tz.name().to_string();
    let want = tz.from_local_datetime(&local).single().map(|x| x.naive_utc());
    let t = CalendarDateTime::WithTimezone { date_time: local, tzid: name.clone() };
    check(t.try_into_utc().map(|x| x.naive_utc()) == want, 1);
    check(CalendarDateTime::from((local, tz)) == t, 2);
    check(CalendarDateTime::try_from((local, &*name)).ok().as_ref() == Some(&t), 3);
    let mut e = Event::new();
    e.starts(t.clone());
    check(e.get_start() == Some(DatePerhapsTime::DateTime(t.clone())), 4);
    if let Some(u) = want {
        check(CalendarDateTime::from_date_time(Utc.from_utc_datetime(&u).with_timezone(&tz)) == t, 5);
        cover(1);
    } else {
        cover(2);
    }
}

/// zones that are not known
fn h_utc_unknown() {
    let local = Fields { y: 2024, mo: 1, d: 2, h: 3, mi: 4, s: 5 }.naive();
    let z = ["", "X", "CEST", "Europe", "Europe/", "Europe/berli", "Europe/Berlin ", "Europe/Berlin2", "/Europe/Berlin", "W. Europe Standard Time", "+01:00", "UTC+1", "Z"][fork(13)].to_string();
    let local = if fork(2) == 1 { local } else { fields(0, 2024).naive() };
    check(CalendarDateTime::WithTimezone { date_time: local, tzid: z.clone() }.try_into_utc().is_none(), 1);
    check(CalendarDateTime::try_from((local, &*z)).is_err() && DatePerhapsTime::try_from((local, &*z)).is_err(), 2);
    cover(1);
}

/// params: symbolic fields, year
/// constructors with a time zone keep the local time and name the zone
fn h_tz_build() {
    let f = fields(param(0), param(1) as i32);
    let (tz, name) = [(chrono_tz::Europe::Berlin, "Europe/Berlin"), (chrono_tz::America::New_York, "America/New_York"), (chrono_tz::UTC, "UTC"), (chrono_tz::Asia::Kolkata, "Asia/Kolkata")][fork(4)];
    let f0 = Fields { s: 0, ..f };
    let want = CalendarDateTime::WithTimezone { date_time: f.naive(), tzid: name.to_string() };
    let want0 = CalendarDateTime::WithTimezone { date_time: f0.naive(), tzid: name.to_string() };
    check(CalendarDateTime::from((f.naive(), tz)) == want, 1);
    check(CalendarDateTime::try_from((f.naive(), name)).ok().as_ref() == Some(&want), 2);
    check(DatePerhapsTime::from((f.naive(), tz)) == DatePerhapsTime::DateTime(want.clone()), 3);
    check(DatePerhapsTime::try_from((f.naive(), name)).ok() == Some(DatePerhapsTime::DateTime(want)), 4);
    check(ymd_hm_tzid(f.y, f.mo, f.d, f.h, f.mi, tz).as_ref() == Some(&want0), 5);
    check(CalendarDateTime::from_ymd_hm_tzid(f.y, f.mo, f.d, f.h, f.mi, tz) == Some(want0), 6);
    cover(1);
}

/// dates that do not exist
fn h_tz_bad() {
    let y = 1900 + choose(201) as i32;
    let mo = fork(14) as u32;
    let d = choose(33) as u32;
    let h = choose(25) as u32;
    let mi = choose(61) as u32;
    let ok = mo >= 1 && mo <= 12 && d >= 1 && d <= days_in(y, mo) && h < 24 && mi < 60;
    let r = ymd_hm_tzid(y, mo, d, h, mi, chrono_tz::Europe::Berlin);
    check(r.is_some() == ok, 1);
    cover(1 + ok as u32);
}

/// params: symbolic fields
/// a moment in a time zone is the same moment in UTC, whatever the zone shows
fn h_tz_moment() {
    let f = fields(param(0), param(1) as i32);
    // since when there are these offsets
    assume(f.y >= 1950);
    let (tz, name) = [(chrono_tz::Asia::Kolkata, "Asia/Kolkata"), (chrono_tz::UTC, "UTC"), (chrono_tz::Etc::GMTPlus5, "Etc/GMT+5")][fork(3)];
    let off = match name { "Asia/Kolkata" => 330, "UTC" => 0, _ => -300 };
    let u = f.utc();
    let c = CalendarDateTime::from_date_time(u.with_timezone(&tz));
    check(c == CalendarDateTime::WithTimezone { date_time: f.naive() + Duration::minutes(off), tzid: name.to_string() }, 1);
    check(c.try_into_utc() == Some(u), 2);
    cover(1);
}
}
