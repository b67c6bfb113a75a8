//! serde: the parsed representation survives JSON
use crate::sx::*;
use crate::util::*;
use icalendar::parser::{self, read_calendar, unfold};

const TXT: Set = Set::range(0, 127).minus(Set::of(b"\r\n"));
const NOQ: Set = Set::range(32, 126).minus(Set::of(b"\"\\"));

crate::harnesses! {
/// params: skeleton, chars, unicode?
/// JSON of a parsed document is read back as the same document, and means the same
fn h_json() {
    let sk = param(0);
    let t = match sk {
        2 => string(param(1), &NAMECH),
        3 => text(param(1), &NOQ.minus(Set::of(b";:")), param(2)),
        4 => text(param(1), &NOQ, param(2)),
        _ => text(param(1), &TXT, param(2)),
    };
    let doc = match sk {
        // TEXT value, other value, property name, parameter value, quoted parameter value
        0 => ["BEGIN:VCALENDAR\r\nNAME:a\r\nBEGIN:VEVENT\r\nSUMMARY:", &t, "\r\nEND:VEVENT\r\nBEGIN:VTODO\r\nEND:VTODO\r\nEND:VCALENDAR\r\n"].concat(),
        1 => ["BEGIN:VCALENDAR\r\nX-A:", &t, "\r\nBEGIN:VEVENT\r\nATTENDEE;CN=x;RSVP=TRUE:", &t, "b\r\nEND:VEVENT\r\nEND:VCALENDAR\r\n"].concat(),
        2 => ["BEGIN:VCALENDAR\r\nX-", &t, ":1\r\nBEGIN:X-C\r\nBEGIN:VALARM\r\nX:\r\nEND:VALARM\r\nEND:X-C\r\nEND:VCALENDAR\r\n"].concat(),
        3 => ["BEGIN:VEVENT\r\nX;X-P=", &t, ";Q:1\r\nEND:VEVENT\r\nBEGIN:VTODO\r\nUID:1\r\nEND:VTODO\r\n"].concat(),
        4 => ["BEGIN:VEVENT\r\nX;X-P=\"a", &t, "\":1\r\nEND:VEVENT\r\n"].concat(),
        // a bit of everything
        _ => ["BEGIN:VCALENDAR\r\nVERSION:2.0\r\nVERSION:2.1\r\nX-NOVALUE\r\nX-E:\r\nBEGIN:VTIMEZONE\r\nTZID:a/b\r\nBEGIN:STANDARD\r\nTZNAME;LANGUAGE=en:c\r\nBEGIN:X-IN\r\nEND:X-IN\r\nEND:STANDARD\r\nEND:VTIMEZONE\r\n",
            "BEGIN:VEVENT\r\nATTENDEE;CN=\"a;b:c\";ROLE=;RSVP;X-Q=d e:mailto:f\r\nATTENDEE:", &t, "\r\nATTENDEE:mailto:f\r\nCOMMENT:a\\nb\\,\\\\", &t, "\r\nSUMMARY;VALUE=TEXT;VALUE=URI:\\n\r\nBEGIN:VALARM\r\nTRIGGER:-PT5M\r\nEND:VALARM\r\nBEGIN:VALARM\r\nEND:VALARM\r\nEND:VEVENT\r\nBEGIN:VEVENT\r\nEND:VEVENT\r\nEND:VCALENDAR\r\n"].concat(),
    };
    let u = unfold(&doc);
    let c = match read_calendar(&u) { Ok(c) => c, Err(_) => { cover(2); return; } };
    match serde_json::to_string(&c) {
        Ok(j) => {
            emit(j.as_bytes());
            match serde_json::from_str::<parser::Calendar>(&j) {
                Ok(d) => {
                    check(d.properties == c.properties && d.components == c.components, 1);
                    check(d.to_string() == c.to_string(), 2);
                    check(icalendar::Calendar::from(d) == icalendar::Calendar::from(c.clone()), 3);
                    cover(1);
                }
                Err(_) => fail(4),
            }
        }
        Err(_) => fail(5),
    }
    // parts of it
    for x in &c.components {
        match serde_json::to_string(x).ok().and_then(|j| serde_json::from_str::<parser::Component>(&j).ok().map(|y| y == *x)) {
            Some(y) => check(y, 6),
            None => fail(7),
        }
        for p in &x.properties {
            match serde_json::to_value(p).ok().and_then(|j| serde_json::from_value::<parser::Property>(j).ok().map(|y| y == *p)) {
                Some(y) => check(y, 8),
                None => fail(9),
            }
        }
    }
}
}
