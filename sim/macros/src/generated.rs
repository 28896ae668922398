// Written by tools/macros.py.
#![allow(clippy::all, unknown_lints, unused_parens, float_literal_f32_fallback)]

use super::{Case, Holes, Outcome, compare};

fn case_0(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::vevent! {
        dtstamp: h.s(0),
        uid: h.s(1),
        dtstart: h.s(2) 
        class: Public 
        created: h.s(3),
        description: h.s(4),
        geo: h.s(5),
        last_modified: h.s(6) 
        location: h.s(7),
        organizer: h.s(8),
        priority: h.u8(9),
        sequence: h.u32(10),
        status: Tentative,
        summary: h.s(11),
        transp: Opaque,
        url: h.s(12),
        recurid: h.s(13),
        rrule: h.s(14),
        dtend: h.s(15) 
        duration: h.s(16),
        attach: [h.s(17),],
        attendee: [h.s(18),],
        categories: [h.s(19),],
        comment: [h.s(20),],
        contact: [h.s(21),],
        exdate: [h.s(22),],
        related_to: [h.s(23),],
        rdate: [h.s(24),],
        rstatus: [h.s(25),],
        resources: [h.s(26),],
        alarms: [h.alarm(27),] 
        x_prop: h.todo(29).x_prop,
        iana_prop: h.todo(30).x_prop,
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VEvent, ikal::Error> { Ok(ikal::VEvent { dtstamp: (h.s(0)).parse::<ikal::DateTime>()?, uid: ikal::Text { params: Default::default(), text: (h.s(1)).to_string() }, dtstart: (h.s(2)).parse::<ikal::Date>()?, class: Some(ikal::Class::Public), created: Some((h.s(3)).parse::<ikal::DateTime>()?), description: Some(ikal::Text { params: Default::default(), text: (h.s(4)).to_string() }), geo: Some((h.s(5)).parse::<ikal::Geo>()?), last_modified: Some((h.s(6)).parse::<ikal::DateTime>()?), location: Some(ikal::Text { params: Default::default(), text: (h.s(7)).to_string() }), organizer: Some(ikal::Uri { params: Default::default(), uri: (h.s(8)).to_string() }), priority: Some(h.u8(9)), sequence: Some(h.u32(10)), status: Some(ikal::Status::Tentative), summary: Some(ikal::Text { params: Default::default(), text: (h.s(11)).to_string() }), transp: Some(ikal::TimeTransparency::Opaque), url: Some(ikal::Uri { params: Default::default(), uri: (h.s(12)).to_string() }), recurid: Some((h.s(13)).parse::<ikal::Date>()?), rrule: Some((h.s(14)).parse::<ikal::Recur>()?), dtend: Some((h.s(15)).parse::<ikal::Date>()?), duration: Some(ikal::parse_duration(h.s(16))?), attach: vec![ikal::Text { params: Default::default(), text: (h.s(17)).to_string() }], attendee: vec![ikal::Uri { params: Default::default(), uri: (h.s(18)).to_string() }], categories: vec![ikal::Text { params: Default::default(), text: (h.s(19)).to_string() }], comment: vec![ikal::Text { params: Default::default(), text: (h.s(20)).to_string() }], contact: vec![ikal::Text { params: Default::default(), text: (h.s(21)).to_string() }], exdate: vec![(h.s(22)).parse::<ikal::Date>()?], related_to: vec![ikal::Text { params: Default::default(), text: (h.s(23)).to_string() }], rdate: vec![(h.s(24)).parse::<ikal::RDate>()?], rstatus: vec![(h.s(25)).parse::<ikal::RequestStatus>()?], resources: vec![ikal::Text { params: Default::default(), text: (h.s(26)).to_string() }], alarms: vec![ikal::VAlarm::from(h.alarm(27))], x_prop: h.todo(29).x_prop, iana_prop: h.todo(30).x_prop, ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_1(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::vevent! {
        dtstamp: h.s(0),
        uid: h.string(1),
        dtstart: h.s(2),
        class: Private 
        created: h.s(3),
        description: h.string(4),
        geo: {
            lon: h.f32(5),
            lat: h.f32(6) 
        },
        last_modified: h.s(7),
        location: h.string(8),
        organizer: h.string(9),
        priority: h.u8(10),
        sequence: h.u32(11),
        status: Confirmed,
        summary: h.string(12),
        transp: Transparent 
        url: h.string(13) 
        recurid: h.s(14),
        rrule: {
            wkst: Some(h.weekday(15).weekday),
        },
        dtend: h.s(16),
        duration: h.s(17),
        attach: [h.string(18)],
        attendee: [h.string(19)] 
        categories: [h.string(20)],
        comment: [h.string(21)],
        contact: [h.string(22)],
        exdate: [h.s(23)],
        related_to: [h.string(24)],
        rdate: [h.s(25)],
        rstatus: [{
            statdesc: format!("{}, {}", h.s(26), 1) 
            extdata: h.s(27),
            statcode: 1.5,
        }],
        resources: [h.string(28)],
        alarms: [h.audio(30)] 
        x_prop: h.todo(31).x_prop 
        iana_prop: h.todo(32).x_prop,
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VEvent, ikal::Error> { Ok(ikal::VEvent { dtstamp: (h.s(0)).parse::<ikal::DateTime>()?, uid: ikal::Text { params: Default::default(), text: (h.string(1)).to_string() }, dtstart: (h.s(2)).parse::<ikal::Date>()?, class: Some(ikal::Class::Private), created: Some((h.s(3)).parse::<ikal::DateTime>()?), description: Some(ikal::Text { params: Default::default(), text: (h.string(4)).to_string() }), geo: Some(ikal::Geo { lon: h.f32(5), lat: h.f32(6), ..Default::default() }), last_modified: Some((h.s(7)).parse::<ikal::DateTime>()?), location: Some(ikal::Text { params: Default::default(), text: (h.string(8)).to_string() }), organizer: Some(ikal::Uri { params: Default::default(), uri: (h.string(9)).to_string() }), priority: Some(h.u8(10)), sequence: Some(h.u32(11)), status: Some(ikal::Status::Confirmed), summary: Some(ikal::Text { params: Default::default(), text: (h.string(12)).to_string() }), transp: Some(ikal::TimeTransparency::Transparent), url: Some(ikal::Uri { params: Default::default(), uri: (h.string(13)).to_string() }), recurid: Some((h.s(14)).parse::<ikal::Date>()?), rrule: Some(ikal::Recur { wkst: Some(h.weekday(15).weekday), ..Default::default() }), dtend: Some((h.s(16)).parse::<ikal::Date>()?), duration: Some(ikal::parse_duration(h.s(17))?), attach: vec![ikal::Text { params: Default::default(), text: (h.string(18)).to_string() }], attendee: vec![ikal::Uri { params: Default::default(), uri: (h.string(19)).to_string() }], categories: vec![ikal::Text { params: Default::default(), text: (h.string(20)).to_string() }], comment: vec![ikal::Text { params: Default::default(), text: (h.string(21)).to_string() }], contact: vec![ikal::Text { params: Default::default(), text: (h.string(22)).to_string() }], exdate: vec![(h.s(23)).parse::<ikal::Date>()?], related_to: vec![ikal::Text { params: Default::default(), text: (h.string(24)).to_string() }], rdate: vec![(h.s(25)).parse::<ikal::RDate>()?], rstatus: vec![ikal::RequestStatus { statdesc: (format!("{}, {}", h.s(26), 1)).to_string(), extdata: Some((h.s(27)).to_string()), statcode: 1.5, ..Default::default() }], resources: vec![ikal::Text { params: Default::default(), text: (h.string(28)).to_string() }], alarms: vec![ikal::VAlarm::from(h.audio(30))], x_prop: h.todo(31).x_prop, iana_prop: h.todo(32).x_prop, ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_2(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::vevent! {
        dtstamp: h.string(0),
        uid: format!("{}, {}", h.s(1), 1),
        dtstart: h.string(2),
        class: Confidential,
        created: &h.string(3),
        description: format!("{}, {}", h.s(4), 1) 
        geo: &h.string(5),
        last_modified: h.string(6),
        location: format!("{}, {}", h.s(7), 1),
        organizer: format!("{}, {}", h.s(8), 1),
        priority: h.u8(9) as u8 
        sequence: h.u8(10) as u32,
        status: Cancelled,
        summary: format!("{}, {}", h.s(11), 1),
        transp: Opaque,
        url: format!("{}, {}", h.s(12), 1),
        recurid: &h.string(13),
        rrule: h.string(14),
        dtend: &h.string(15),
        duration: &h.string(16),
        attach: [format!("{}, {}", h.s(17), 1), h.params::<ikal::Text>(18), h.params::<ikal::Text>(19)],
        attendee: [format!("{}, {}", h.s(20), 1), format!("{}, {}", h.s(21), 1), h.params::<ikal::Uri>(22), h.params::<ikal::Uri>(23)],
        categories: [format!("{}, {}", h.s(24), 1), h.params::<ikal::Text>(25)],
        comment: [format!("{}, {}", h.s(26), 1), h.params::<ikal::Text>(27)],
        contact: [format!("{}, {}", h.s(28), 1), h.params::<ikal::Text>(29)],
        exdate: [h.string(30), &h.string(31), h.s(32), h.s(33)] 
        related_to: [format!("{}, {}", h.s(34), 1), format!("{}, {}", h.s(35), 1), h.params::<ikal::Text>(36), h.params::<ikal::Text>(37)] 
        rdate: [h.string(38), h.s(39)] 
        rstatus: [h.string(40), &h.string(41), {
            statdesc: format!("{}, {}", h.s(42), 1),
            extdata: h.string(43),
            statcode: h.f32(44),
        }],
        resources: [format!("{}, {}", h.s(45), 1), format!("{}, {}", h.s(46), 1), h.params::<ikal::Text>(47), h.params::<ikal::Text>(48)],
        alarms: [h.alarm(49), h.alarm(51), h.audio(54)] 
        x_prop: h.todo(55).x_prop,
        iana_prop: h.todo(56).x_prop,
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VEvent, ikal::Error> { Ok(ikal::VEvent { dtstamp: (h.string(0)).parse::<ikal::DateTime>()?, uid: ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(1), 1)).to_string() }, dtstart: (h.string(2)).parse::<ikal::Date>()?, class: Some(ikal::Class::Confidential), created: Some((h.string(3)).parse::<ikal::DateTime>()?), description: Some(ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(4), 1)).to_string() }), geo: Some((h.string(5)).parse::<ikal::Geo>()?), last_modified: Some((h.string(6)).parse::<ikal::DateTime>()?), location: Some(ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(7), 1)).to_string() }), organizer: Some(ikal::Uri { params: Default::default(), uri: (format!("{}, {}", h.s(8), 1)).to_string() }), priority: Some(h.u8(9) as u8), sequence: Some(h.u8(10) as u32), status: Some(ikal::Status::Cancelled), summary: Some(ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(11), 1)).to_string() }), transp: Some(ikal::TimeTransparency::Opaque), url: Some(ikal::Uri { params: Default::default(), uri: (format!("{}, {}", h.s(12), 1)).to_string() }), recurid: Some((h.string(13)).parse::<ikal::Date>()?), rrule: Some((h.string(14)).parse::<ikal::Recur>()?), dtend: Some((h.string(15)).parse::<ikal::Date>()?), duration: Some(ikal::parse_duration(&h.string(16))?), attach: vec![ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(17), 1)).to_string() }, h.params::<ikal::Text>(18), h.params::<ikal::Text>(19)], attendee: vec![ikal::Uri { params: Default::default(), uri: (format!("{}, {}", h.s(20), 1)).to_string() }, ikal::Uri { params: Default::default(), uri: (format!("{}, {}", h.s(21), 1)).to_string() }, h.params::<ikal::Uri>(22), h.params::<ikal::Uri>(23)], categories: vec![ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(24), 1)).to_string() }, h.params::<ikal::Text>(25)], comment: vec![ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(26), 1)).to_string() }, h.params::<ikal::Text>(27)], contact: vec![ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(28), 1)).to_string() }, h.params::<ikal::Text>(29)], exdate: vec![(h.string(30)).parse::<ikal::Date>()?, (h.string(31)).parse::<ikal::Date>()?, (h.s(32)).parse::<ikal::Date>()?, (h.s(33)).parse::<ikal::Date>()?], related_to: vec![ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(34), 1)).to_string() }, ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(35), 1)).to_string() }, h.params::<ikal::Text>(36), h.params::<ikal::Text>(37)], rdate: vec![(h.string(38)).parse::<ikal::RDate>()?, (h.s(39)).parse::<ikal::RDate>()?], rstatus: vec![(h.string(40)).parse::<ikal::RequestStatus>()?, (h.string(41)).parse::<ikal::RequestStatus>()?, ikal::RequestStatus { statdesc: (format!("{}, {}", h.s(42), 1)).to_string(), extdata: Some((h.string(43)).to_string()), statcode: h.f32(44), ..Default::default() }], resources: vec![ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(45), 1)).to_string() }, ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(46), 1)).to_string() }, h.params::<ikal::Text>(47), h.params::<ikal::Text>(48)], alarms: vec![ikal::VAlarm::from(h.alarm(49)), ikal::VAlarm::from(h.alarm(51)), ikal::VAlarm::from(h.audio(54))], x_prop: h.todo(55).x_prop, iana_prop: h.todo(56).x_prop, ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_3(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::vevent! {
        dtstamp: h.s(0),
        uid: h.params::<ikal::Text>(1),
        dtstart: h.s(2),
        class: Custom(h.string(3)),
        created: h.s(4),
        description: h.params::<ikal::Text>(5) 
        geo: {
            lat: h.f32(6),
            lon: h.f32(7),
        },
        last_modified: h.s(8),
        location: h.params::<ikal::Text>(9),
        organizer: h.params::<ikal::Uri>(10),
        priority: 1 + 2 
        sequence: 7 
        status: NeedsAction,
        summary: h.params::<ikal::Text>(11),
        transp: Transparent,
        url: h.params::<ikal::Uri>(12),
        recurid: h.s(13),
        rrule: {
            count: Some(h.u8(14)),
        },
        dtend: h.s(15) 
        duration: h.s(16),
        attach: [h.params::<ikal::Text>(17), "a, b; c", "a, b; c", h.string(18),] 
        attendee: [h.params::<ikal::Uri>(19), "a, b; c", "a, b; c", h.string(20), h.string(21),] 
        categories: [h.params::<ikal::Text>(22), "a, b; c", "a, b; c", h.string(23),],
        comment: [h.params::<ikal::Text>(24), h.params::<ikal::Text>(25), "a, b; c", "a, b; c", h.string(26), h.string(27),],
        contact: [h.params::<ikal::Text>(28), h.params::<ikal::Text>(29), "a, b; c", "a, b; c", h.string(30),],
        exdate: [h.s(31), h.s(32), "20240229T", h.s(33), h.s(34),],
        related_to: [h.params::<ikal::Text>(35), h.params::<ikal::Text>(36), "a, b; c", h.string(37),] 
        rdate: [h.s(38), h.s(39), "20240229", h.s(40), h.s(41),],
        rstatus: [{
            statdesc: h.s(42),
            extdata: "a, b; c",
        }, "Success", "2.0;Success", {
            extdata: h.string(43),
            statdesc: h.string(44),
        }, {
            extdata: format!("{}, {}", h.s(45), 1),
        },],
        resources: [h.params::<ikal::Text>(46), h.params::<ikal::Text>(47), "a, b; c", h.string(48), h.string(49),],
        alarms: [h.audio(51), h.audio(53), h.alarm(54), h.audio(57),],
        x_prop: h.todo(58).x_prop,
        iana_prop: h.todo(59).x_prop,
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VEvent, ikal::Error> { Ok(ikal::VEvent { dtstamp: (h.s(0)).parse::<ikal::DateTime>()?, uid: h.params::<ikal::Text>(1), dtstart: (h.s(2)).parse::<ikal::Date>()?, class: Some(ikal::Class::Custom(h.string(3))), created: Some((h.s(4)).parse::<ikal::DateTime>()?), description: Some(h.params::<ikal::Text>(5)), geo: Some(ikal::Geo { lat: h.f32(6), lon: h.f32(7), ..Default::default() }), last_modified: Some((h.s(8)).parse::<ikal::DateTime>()?), location: Some(h.params::<ikal::Text>(9)), organizer: Some(h.params::<ikal::Uri>(10)), priority: Some(1 + 2), sequence: Some(7), status: Some(ikal::Status::NeedsAction), summary: Some(h.params::<ikal::Text>(11)), transp: Some(ikal::TimeTransparency::Transparent), url: Some(h.params::<ikal::Uri>(12)), recurid: Some((h.s(13)).parse::<ikal::Date>()?), rrule: Some(ikal::Recur { count: Some(h.u8(14)), ..Default::default() }), dtend: Some((h.s(15)).parse::<ikal::Date>()?), duration: Some(ikal::parse_duration(h.s(16))?), attach: vec![h.params::<ikal::Text>(17), ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }, ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }, ikal::Text { params: Default::default(), text: (h.string(18)).to_string() }], attendee: vec![h.params::<ikal::Uri>(19), ikal::Uri { params: Default::default(), uri: ("a, b; c").to_string() }, ikal::Uri { params: Default::default(), uri: ("a, b; c").to_string() }, ikal::Uri { params: Default::default(), uri: (h.string(20)).to_string() }, ikal::Uri { params: Default::default(), uri: (h.string(21)).to_string() }], categories: vec![h.params::<ikal::Text>(22), ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }, ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }, ikal::Text { params: Default::default(), text: (h.string(23)).to_string() }], comment: vec![h.params::<ikal::Text>(24), h.params::<ikal::Text>(25), ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }, ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }, ikal::Text { params: Default::default(), text: (h.string(26)).to_string() }, ikal::Text { params: Default::default(), text: (h.string(27)).to_string() }], contact: vec![h.params::<ikal::Text>(28), h.params::<ikal::Text>(29), ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }, ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }, ikal::Text { params: Default::default(), text: (h.string(30)).to_string() }], exdate: vec![(h.s(31)).parse::<ikal::Date>()?, (h.s(32)).parse::<ikal::Date>()?, ("20240229T").parse::<ikal::Date>()?, (h.s(33)).parse::<ikal::Date>()?, (h.s(34)).parse::<ikal::Date>()?], related_to: vec![h.params::<ikal::Text>(35), h.params::<ikal::Text>(36), ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }, ikal::Text { params: Default::default(), text: (h.string(37)).to_string() }], rdate: vec![(h.s(38)).parse::<ikal::RDate>()?, (h.s(39)).parse::<ikal::RDate>()?, ("20240229").parse::<ikal::RDate>()?, (h.s(40)).parse::<ikal::RDate>()?, (h.s(41)).parse::<ikal::RDate>()?], rstatus: vec![ikal::RequestStatus { statdesc: (h.s(42)).to_string(), extdata: Some(("a, b; c").to_string()), ..Default::default() }, ("Success").parse::<ikal::RequestStatus>()?, ("2.0;Success").parse::<ikal::RequestStatus>()?, ikal::RequestStatus { extdata: Some((h.string(43)).to_string()), statdesc: (h.string(44)).to_string(), ..Default::default() }, ikal::RequestStatus { extdata: Some((format!("{}, {}", h.s(45), 1)).to_string()), ..Default::default() }], resources: vec![h.params::<ikal::Text>(46), h.params::<ikal::Text>(47), ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }, ikal::Text { params: Default::default(), text: (h.string(48)).to_string() }, ikal::Text { params: Default::default(), text: (h.string(49)).to_string() }], alarms: vec![ikal::VAlarm::from(h.audio(51)), ikal::VAlarm::from(h.audio(53)), ikal::VAlarm::from(h.alarm(54)), ikal::VAlarm::from(h.audio(57))], x_prop: h.todo(58).x_prop, iana_prop: h.todo(59).x_prop, ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_4(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::vevent! {
        dtstamp: "20240331T023000",
        uid: "a, b; c",
        dtstart: "20240331T023000",
        class: Public,
        created: "20240331",
        description: "a, b; c" 
        geo: "48.85;2.35",
        last_modified: "20240331T023000",
        location: "a, b; c",
        organizer: "a, b; c",
        priority: h.u8(0),
        sequence: h.u32(1),
        status: Completed,
        summary: "a, b; c",
        transp: Opaque,
        url: "a, b; c",
        recurid: "",
        rrule: "FREQ=NEVER",
        dtend: "20240229T",
        duration: "P1DT2H",
        attach: [],
        attendee: [],
        categories: [],
        comment: [],
        contact: [],
        exdate: [],
        related_to: [],
        rdate: [],
        rstatus: [],
        resources: [],
        alarms: [],
        x_prop: h.todo(2).x_prop,
        iana_prop: h.todo(3).x_prop 
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VEvent, ikal::Error> { Ok(ikal::VEvent { dtstamp: ("20240331T023000").parse::<ikal::DateTime>()?, uid: ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }, dtstart: ("20240331T023000").parse::<ikal::Date>()?, class: Some(ikal::Class::Public), created: Some(("20240331").parse::<ikal::DateTime>()?), description: Some(ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }), geo: Some(("48.85;2.35").parse::<ikal::Geo>()?), last_modified: Some(("20240331T023000").parse::<ikal::DateTime>()?), location: Some(ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }), organizer: Some(ikal::Uri { params: Default::default(), uri: ("a, b; c").to_string() }), priority: Some(h.u8(0)), sequence: Some(h.u32(1)), status: Some(ikal::Status::Completed), summary: Some(ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }), transp: Some(ikal::TimeTransparency::Opaque), url: Some(ikal::Uri { params: Default::default(), uri: ("a, b; c").to_string() }), recurid: Some(("").parse::<ikal::Date>()?), rrule: Some(("FREQ=NEVER").parse::<ikal::Recur>()?), dtend: Some(("20240229T").parse::<ikal::Date>()?), duration: Some(ikal::parse_duration("P1DT2H")?), attach: vec![], attendee: vec![], categories: vec![], comment: vec![], contact: vec![], exdate: vec![], related_to: vec![], rdate: vec![], rstatus: vec![], resources: vec![], alarms: vec![], x_prop: h.todo(2).x_prop, iana_prop: h.todo(3).x_prop, ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_5(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::vevent! {
        dtstamp: h.s(0),
        uid: h.string(1),
        dtstart: h.s(2),
        class: Private,
        created: h.s(3) 
        description: h.string(4),
        geo: {
            lon: 2. * 0.5,
            lat: h.f32(5),
        },
        last_modified: h.s(6),
        location: h.string(7),
        organizer: h.string(8),
        priority: h.u8(9),
        sequence: h.u32(10),
        status: InProcess,
        summary: h.string(11),
        transp: Transparent,
        url: h.string(12),
        recurid: h.s(13),
        rrule: {
            by_second: [h.i8(14)] 
        },
        dtend: h.s(15),
        duration: h.s(16),
        attach: [h.string(17)],
        attendee: [h.string(18)],
        categories: [h.string(19)],
        comment: [h.string(20)],
        contact: [h.string(21)],
        exdate: [h.s(22)],
        related_to: [h.string(23)],
        rdate: [h.s(24)],
        rstatus: [{
            statcode: h.f32(25),
            extdata: "a, b; c",
            statdesc: h.s(26),
        }] 
        resources: [h.string(27)],
        alarms: [h.audio(29)],
        x_prop: h.todo(30).x_prop,
        iana_prop: h.todo(31).x_prop,
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VEvent, ikal::Error> { Ok(ikal::VEvent { dtstamp: (h.s(0)).parse::<ikal::DateTime>()?, uid: ikal::Text { params: Default::default(), text: (h.string(1)).to_string() }, dtstart: (h.s(2)).parse::<ikal::Date>()?, class: Some(ikal::Class::Private), created: Some((h.s(3)).parse::<ikal::DateTime>()?), description: Some(ikal::Text { params: Default::default(), text: (h.string(4)).to_string() }), geo: Some(ikal::Geo { lon: 2. * 0.5, lat: h.f32(5), ..Default::default() }), last_modified: Some((h.s(6)).parse::<ikal::DateTime>()?), location: Some(ikal::Text { params: Default::default(), text: (h.string(7)).to_string() }), organizer: Some(ikal::Uri { params: Default::default(), uri: (h.string(8)).to_string() }), priority: Some(h.u8(9)), sequence: Some(h.u32(10)), status: Some(ikal::Status::InProcess), summary: Some(ikal::Text { params: Default::default(), text: (h.string(11)).to_string() }), transp: Some(ikal::TimeTransparency::Transparent), url: Some(ikal::Uri { params: Default::default(), uri: (h.string(12)).to_string() }), recurid: Some((h.s(13)).parse::<ikal::Date>()?), rrule: Some(ikal::Recur { by_second: vec![h.i8(14)], ..Default::default() }), dtend: Some((h.s(15)).parse::<ikal::Date>()?), duration: Some(ikal::parse_duration(h.s(16))?), attach: vec![ikal::Text { params: Default::default(), text: (h.string(17)).to_string() }], attendee: vec![ikal::Uri { params: Default::default(), uri: (h.string(18)).to_string() }], categories: vec![ikal::Text { params: Default::default(), text: (h.string(19)).to_string() }], comment: vec![ikal::Text { params: Default::default(), text: (h.string(20)).to_string() }], contact: vec![ikal::Text { params: Default::default(), text: (h.string(21)).to_string() }], exdate: vec![(h.s(22)).parse::<ikal::Date>()?], related_to: vec![ikal::Text { params: Default::default(), text: (h.string(23)).to_string() }], rdate: vec![(h.s(24)).parse::<ikal::RDate>()?], rstatus: vec![ikal::RequestStatus { statcode: h.f32(25), extdata: Some(("a, b; c").to_string()), statdesc: (h.s(26)).to_string(), ..Default::default() }], resources: vec![ikal::Text { params: Default::default(), text: (h.string(27)).to_string() }], alarms: vec![ikal::VAlarm::from(h.audio(29))], x_prop: h.todo(30).x_prop, iana_prop: h.todo(31).x_prop, ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_6(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::vevent! {
        dtstamp: h.s(0),
        uid: format!("{}, {}", h.s(1), 1) 
        dtstart: h.s(2),
        class: Confidential 
        created: h.s(3),
        description: format!("{}, {}", h.s(4), 1),
        geo: h.s(5),
        last_modified: h.s(6),
        location: format!("{}, {}", h.s(7), 1),
        organizer: format!("{}, {}", h.s(8), 1),
        priority: h.u8(9) as u8,
        sequence: h.u8(10) as u32,
        status: Draft,
        summary: format!("{}, {}", h.s(11), 1),
        transp: Opaque,
        url: format!("{}, {}", h.s(12), 1),
        recurid: h.s(13),
        rrule: h.s(14),
        dtend: h.s(15),
        duration: h.s(16),
        attach: [format!("{}, {}", h.s(17), 1), h.params::<ikal::Text>(18), h.params::<ikal::Text>(19),],
        attendee: [format!("{}, {}", h.s(20), 1), format!("{}, {}", h.s(21), 1), h.params::<ikal::Uri>(22), h.params::<ikal::Uri>(23),],
        categories: [format!("{}, {}", h.s(24), 1), format!("{}, {}", h.s(25), 1), h.params::<ikal::Text>(26), h.params::<ikal::Text>(27),],
        comment: [format!("{}, {}", h.s(28), 1), h.params::<ikal::Text>(29), h.params::<ikal::Text>(30),],
        contact: [format!("{}, {}", h.s(31), 1), h.params::<ikal::Text>(32),],
        exdate: [h.s(33), h.s(34), &h.string(35), h.string(36),] 
        related_to: [format!("{}, {}", h.s(37), 1), h.params::<ikal::Text>(38), h.params::<ikal::Text>(39),],
        rdate: [h.s(40), h.s(41), h.string(42),],
        rstatus: [h.s(43), h.s(44), {
            statcode: 1.5,
            statdesc: format!("{}, {}", h.s(45), 1),
            extdata: h.s(46),
        }, {
            extdata: "a, b; c",
            statdesc: h.s(47),
            statcode: h.f32(48),
        },] 
        resources: [format!("{}, {}", h.s(49), 1), format!("{}, {}", h.s(50), 1), h.params::<ikal::Text>(51),],
        alarms: [h.alarm(52), h.alarm(54), h.audio(57),],
        x_prop: h.todo(58).x_prop,
        iana_prop: h.todo(59).x_prop,
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VEvent, ikal::Error> { Ok(ikal::VEvent { dtstamp: (h.s(0)).parse::<ikal::DateTime>()?, uid: ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(1), 1)).to_string() }, dtstart: (h.s(2)).parse::<ikal::Date>()?, class: Some(ikal::Class::Confidential), created: Some((h.s(3)).parse::<ikal::DateTime>()?), description: Some(ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(4), 1)).to_string() }), geo: Some((h.s(5)).parse::<ikal::Geo>()?), last_modified: Some((h.s(6)).parse::<ikal::DateTime>()?), location: Some(ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(7), 1)).to_string() }), organizer: Some(ikal::Uri { params: Default::default(), uri: (format!("{}, {}", h.s(8), 1)).to_string() }), priority: Some(h.u8(9) as u8), sequence: Some(h.u8(10) as u32), status: Some(ikal::Status::Draft), summary: Some(ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(11), 1)).to_string() }), transp: Some(ikal::TimeTransparency::Opaque), url: Some(ikal::Uri { params: Default::default(), uri: (format!("{}, {}", h.s(12), 1)).to_string() }), recurid: Some((h.s(13)).parse::<ikal::Date>()?), rrule: Some((h.s(14)).parse::<ikal::Recur>()?), dtend: Some((h.s(15)).parse::<ikal::Date>()?), duration: Some(ikal::parse_duration(h.s(16))?), attach: vec![ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(17), 1)).to_string() }, h.params::<ikal::Text>(18), h.params::<ikal::Text>(19)], attendee: vec![ikal::Uri { params: Default::default(), uri: (format!("{}, {}", h.s(20), 1)).to_string() }, ikal::Uri { params: Default::default(), uri: (format!("{}, {}", h.s(21), 1)).to_string() }, h.params::<ikal::Uri>(22), h.params::<ikal::Uri>(23)], categories: vec![ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(24), 1)).to_string() }, ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(25), 1)).to_string() }, h.params::<ikal::Text>(26), h.params::<ikal::Text>(27)], comment: vec![ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(28), 1)).to_string() }, h.params::<ikal::Text>(29), h.params::<ikal::Text>(30)], contact: vec![ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(31), 1)).to_string() }, h.params::<ikal::Text>(32)], exdate: vec![(h.s(33)).parse::<ikal::Date>()?, (h.s(34)).parse::<ikal::Date>()?, (h.string(35)).parse::<ikal::Date>()?, (h.string(36)).parse::<ikal::Date>()?], related_to: vec![ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(37), 1)).to_string() }, h.params::<ikal::Text>(38), h.params::<ikal::Text>(39)], rdate: vec![(h.s(40)).parse::<ikal::RDate>()?, (h.s(41)).parse::<ikal::RDate>()?, (h.string(42)).parse::<ikal::RDate>()?], rstatus: vec![(h.s(43)).parse::<ikal::RequestStatus>()?, (h.s(44)).parse::<ikal::RequestStatus>()?, ikal::RequestStatus { statcode: 1.5, statdesc: (format!("{}, {}", h.s(45), 1)).to_string(), extdata: Some((h.s(46)).to_string()), ..Default::default() }, ikal::RequestStatus { extdata: Some(("a, b; c").to_string()), statdesc: (h.s(47)).to_string(), statcode: h.f32(48), ..Default::default() }], resources: vec![ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(49), 1)).to_string() }, ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(50), 1)).to_string() }, h.params::<ikal::Text>(51)], alarms: vec![ikal::VAlarm::from(h.alarm(52)), ikal::VAlarm::from(h.alarm(54)), ikal::VAlarm::from(h.audio(57))], x_prop: h.todo(58).x_prop, iana_prop: h.todo(59).x_prop, ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_7(h: &Holes) -> Outcome {
    let dtstamp_: ikal::DateTime = h.parsed::<ikal::DateTime>(0);
    let dtstamp = dtstamp_.clone();
    let uid_: ikal::Text = h.params::<ikal::Text>(1);
    let uid = uid_.clone();
    let dtstart_: ikal::Date = h.parsed::<ikal::Date>(2);
    let dtstart = dtstart_.clone();
    let class_: Option<ikal::Class> = Some(ikal::Class::Public);
    let class = class_.clone();
    let created_: Option<ikal::DateTime> = Some(h.parsed::<ikal::DateTime>(3));
    let created = created_.clone();
    let description_: Option<ikal::Text> = None;
    let description = description_.clone();
    let geo_: Option<ikal::Geo> = None;
    let geo = geo_.clone();
    let last_modified_: Option<ikal::DateTime> = None;
    let last_modified = last_modified_.clone();
    let location_: Option<ikal::Text> = None;
    let location = location_.clone();
    let organizer_: Option<ikal::Uri> = Some(h.params::<ikal::Uri>(8));
    let organizer = organizer_.clone();
    let priority_: Option<u8> = Some(h.u8(9));
    let priority = priority_.clone();
    let sequence_: Option<u32> = Some(h.u32(10));
    let sequence = sequence_.clone();
    let status_: Option<ikal::Status> = Some(ikal::Status::Tentative);
    let status = status_.clone();
    let summary_: Option<ikal::Text> = Some(h.params::<ikal::Text>(11));
    let summary = summary_.clone();
    let transp_: Option<ikal::TimeTransparency> = None;
    let transp = transp_.clone();
    let url_: Option<ikal::Uri> = None;
    let url = url_.clone();
    let recurid_: Option<ikal::Date> = Some(h.parsed::<ikal::Date>(13));
    let recurid = recurid_.clone();
    let rrule_: Option<ikal::Recur> = None;
    let rrule = rrule_.clone();
    let dtend_: Option<ikal::Date> = None;
    let dtend = dtend_.clone();
    let duration_: Option<chrono::TimeDelta> = Some(h.length(16));
    let duration = duration_.clone();
    let attach_: Vec<ikal::Text> = vec![h.params::<ikal::Text>(17), h.params::<ikal::Text>(18), h.params::<ikal::Text>(19)];
    let attach = attach_.clone();
    let attendee_: Vec<ikal::Uri> = vec![h.params::<ikal::Uri>(20), h.params::<ikal::Uri>(21), h.params::<ikal::Uri>(22)];
    let attendee = attendee_.clone();
    let categories_: Vec<ikal::Text> = vec![h.params::<ikal::Text>(23)];
    let categories = categories_.clone();
    let comment_: Vec<ikal::Text> = vec![h.params::<ikal::Text>(24), h.params::<ikal::Text>(25)];
    let comment = comment_.clone();
    let contact_: Vec<ikal::Text> = vec![h.params::<ikal::Text>(26), h.params::<ikal::Text>(27)];
    let contact = contact_.clone();
    let exdate_: Vec<ikal::Date> = vec![h.parsed::<ikal::Date>(28), h.parsed::<ikal::Date>(29)];
    let exdate = exdate_.clone();
    let related_to_: Vec<ikal::Text> = vec![h.params::<ikal::Text>(30), h.params::<ikal::Text>(31)];
    let related_to = related_to_.clone();
    let rdate_: Vec<ikal::RDate> = vec![h.parsed::<ikal::RDate>(32)];
    let rdate = rdate_.clone();
    let rstatus_: Vec<ikal::RequestStatus> = vec![h.parsed::<ikal::RequestStatus>(33)];
    let rstatus = rstatus_.clone();
    let resources_: Vec<ikal::Text> = vec![h.params::<ikal::Text>(34), h.params::<ikal::Text>(35), h.params::<ikal::Text>(36)];
    let resources = resources_.clone();
    let alarms_: Vec<ikal::VAlarm> = vec![ikal::VAlarm::from(h.audio(38))];
    let alarms = alarms_.clone();
    let x_prop_: std::collections::BTreeMap<String, _> = h.todo(39).x_prop;
    let x_prop = x_prop_.clone();
    let iana_prop_: std::collections::BTreeMap<String, _> = h.todo(40).x_prop;
    let iana_prop = iana_prop_.clone();
    h.begin();
    let built = ikal::vevent! {
        dtstamp,
        uid,
        dtstart,
        class,
        created,
        description,
        geo,
        last_modified,
        location,
        organizer,
        priority,
        sequence,
        status,
        summary,
        transp,
        url,
        recurid,
        rrule,
        dtend,
        duration,
        attach,
        attendee,
        categories,
        comment,
        contact,
        exdate,
        related_to,
        rdate,
        rstatus,
        resources,
        alarms,
        x_prop,
        iana_prop,
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VEvent, ikal::Error> { Ok(ikal::VEvent { dtstamp: dtstamp_, uid: uid_, dtstart: dtstart_, class: class_, created: created_, description: description_, geo: geo_, last_modified: last_modified_, location: location_, organizer: organizer_, priority: priority_, sequence: sequence_, status: status_, summary: summary_, transp: transp_, url: url_, recurid: recurid_, rrule: rrule_, dtend: dtend_, duration: duration_, attach: attach_, attendee: attendee_, categories: categories_, comment: comment_, contact: contact_, exdate: exdate_, related_to: related_to_, rdate: rdate_, rstatus: rstatus_, resources: resources_, alarms: alarms_, x_prop: x_prop_, iana_prop: iana_prop_, ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_8(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::vevent! {
        dtstart: h.s(0) 
        transp: Opaque,
        rdate: [h.s(1), "20240229", "20240229", h.s(2), h.s(3),] 
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VEvent, ikal::Error> { Ok(ikal::VEvent { dtstart: (h.s(0)).parse::<ikal::Date>()?, transp: Some(ikal::TimeTransparency::Opaque), rdate: vec![(h.s(1)).parse::<ikal::RDate>()?, ("20240229").parse::<ikal::RDate>()?, ("20240229").parse::<ikal::RDate>()?, (h.s(2)).parse::<ikal::RDate>()?, (h.s(3)).parse::<ikal::RDate>()?], ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_9(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::vevent! {
        class: Public,
        description: format!("{}, {}", h.s(0), 1),
        dtend: "20240229",
        summary: h.string(1),
        recurid: h.s(2),
        alarms: [h.audio(4), h.alarm(5), h.audio(8), h.audio(10),],
        rstatus: [&h.string(11), h.string(12), {
            extdata: h.s(13),
            statdesc: "a, b; c",
            statcode: h.f32(14),
        }],
        last_modified: h.s(15),
        iana_prop: h.todo(16).x_prop,
        attendee: [h.params::<ikal::Uri>(17), "a, b; c", "a, b; c", h.string(18), h.string(19),] 
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VEvent, ikal::Error> { Ok(ikal::VEvent { class: Some(ikal::Class::Public), description: Some(ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(0), 1)).to_string() }), dtend: Some(("20240229").parse::<ikal::Date>()?), summary: Some(ikal::Text { params: Default::default(), text: (h.string(1)).to_string() }), recurid: Some((h.s(2)).parse::<ikal::Date>()?), alarms: vec![ikal::VAlarm::from(h.audio(4)), ikal::VAlarm::from(h.alarm(5)), ikal::VAlarm::from(h.audio(8)), ikal::VAlarm::from(h.audio(10))], rstatus: vec![(h.string(11)).parse::<ikal::RequestStatus>()?, (h.string(12)).parse::<ikal::RequestStatus>()?, ikal::RequestStatus { extdata: Some((h.s(13)).to_string()), statdesc: ("a, b; c").to_string(), statcode: h.f32(14), ..Default::default() }], last_modified: Some((h.s(15)).parse::<ikal::DateTime>()?), iana_prop: h.todo(16).x_prop, attendee: vec![h.params::<ikal::Uri>(17), ikal::Uri { params: Default::default(), uri: ("a, b; c").to_string() }, ikal::Uri { params: Default::default(), uri: ("a, b; c").to_string() }, ikal::Uri { params: Default::default(), uri: (h.string(18)).to_string() }, ikal::Uri { params: Default::default(), uri: (h.string(19)).to_string() }], ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_10(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::vevent! {
        sequence: h.u32(0),
        iana_prop: h.todo(1).x_prop,
        created: h.s(2),
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VEvent, ikal::Error> { Ok(ikal::VEvent { sequence: Some(h.u32(0)), iana_prop: h.todo(1).x_prop, created: Some((h.s(2)).parse::<ikal::DateTime>()?), ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_11(h: &Holes) -> Outcome {
    let attendee_: Vec<ikal::Uri> = vec![h.params::<ikal::Uri>(2), h.params::<ikal::Uri>(3)];
    let attendee = attendee_.clone();
    let duration_: Option<chrono::TimeDelta> = None;
    let duration = duration_.clone();
    let x_prop_: std::collections::BTreeMap<String, _> = h.todo(12).x_prop;
    let x_prop = x_prop_.clone();
    h.begin();
    let built = ikal::vevent! {
        transp: Opaque,
        rrule: "FREQ=NEVER" 
        uid: h.params::<ikal::Text>(0),
        geo: &h.string(1),
        attendee,
        dtend: h.s(4),
        iana_prop: h.todo(5).x_prop,
        exdate: [h.s(6)],
        class: Public,
        duration,
        dtstart: h.s(8),
        rdate: [h.s(9),],
        sequence: h.u32(10),
        url: format!("{}, {}", h.s(11), 1) 
        x_prop,
        description: h.string(13),
        recurid: h.s(14),
        attach: [h.string(15)],
        comment: [format!("{}, {}", h.s(16), 1), format!("{}, {}", h.s(17), 1), h.params::<ikal::Text>(18), h.params::<ikal::Text>(19)],
        dtstamp: h.s(20),
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VEvent, ikal::Error> { Ok(ikal::VEvent { transp: Some(ikal::TimeTransparency::Opaque), rrule: Some(("FREQ=NEVER").parse::<ikal::Recur>()?), uid: h.params::<ikal::Text>(0), geo: Some((h.string(1)).parse::<ikal::Geo>()?), attendee: attendee_, dtend: Some((h.s(4)).parse::<ikal::Date>()?), iana_prop: h.todo(5).x_prop, exdate: vec![(h.s(6)).parse::<ikal::Date>()?], class: Some(ikal::Class::Public), duration: duration_, dtstart: (h.s(8)).parse::<ikal::Date>()?, rdate: vec![(h.s(9)).parse::<ikal::RDate>()?], sequence: Some(h.u32(10)), url: Some(ikal::Uri { params: Default::default(), uri: (format!("{}, {}", h.s(11), 1)).to_string() }), x_prop: x_prop_, description: Some(ikal::Text { params: Default::default(), text: (h.string(13)).to_string() }), recurid: Some((h.s(14)).parse::<ikal::Date>()?), attach: vec![ikal::Text { params: Default::default(), text: (h.string(15)).to_string() }], comment: vec![ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(16), 1)).to_string() }, ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(17), 1)).to_string() }, h.params::<ikal::Text>(18), h.params::<ikal::Text>(19)], dtstamp: (h.s(20)).parse::<ikal::DateTime>()?, ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_12(h: &Holes) -> Outcome {
    let recurid_: Option<ikal::Date> = Some(h.parsed::<ikal::Date>(5));
    let recurid = recurid_.clone();
    let comment_: Vec<ikal::Text> = vec![h.params::<ikal::Text>(32), h.params::<ikal::Text>(33), h.params::<ikal::Text>(34)];
    let comment = comment_.clone();
    let duration_: Option<chrono::TimeDelta> = Some(h.length(37));
    let duration = duration_.clone();
    h.begin();
    let built = ikal::vevent! {
        organizer: format!("{}, {}", h.s(0), 1),
        categories: [format!("{}, {}", h.s(1), 1), format!("{}, {}", h.s(2), 1), h.params::<ikal::Text>(3), h.params::<ikal::Text>(4),] 
        recurid,
        alarms: [h.alarm(6), h.alarm(8), h.audio(11), h.audio(13),],
        geo: h.s(14),
        transp: Transparent,
        contact: [format!("{}, {}", h.s(15), 1), h.params::<ikal::Text>(16), h.params::<ikal::Text>(17)],
        attach: [],
        exdate: [h.s(18), h.s(19), "", "20240331T023000", h.s(20),] 
        x_prop: h.todo(21).x_prop,
        url: h.string(22),
        description: h.string(23),
        uid: h.string(24),
        summary: "a, b; c",
        resources: [format!("{}, {}", h.s(25), 1), h.params::<ikal::Text>(26), h.params::<ikal::Text>(27)] 
        dtstart: h.s(28),
        rdate: [h.s(29), h.string(30), &h.string(31),],
        comment,
        class: Public 
        last_modified: &h.string(35),
        iana_prop: h.todo(36).x_prop 
        duration,
        sequence: h.u32(38),
        rstatus: [{
            extdata: h.s(39),
            statcode: h.f32(40),
            statdesc: format!("{}, {}", h.s(41), 1),
        }],
        location: h.string(42),
        rrule: h.s(43),
        dtend: h.s(44),
        attendee: [format!("{}, {}", h.s(45), 1), format!("{}, {}", h.s(46), 1), h.params::<ikal::Uri>(47),],
        dtstamp: h.s(48),
        related_to: [h.s(49),],
        created: h.s(50),
        status: InProcess,
        priority: h.u8(51) as u8,
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VEvent, ikal::Error> { Ok(ikal::VEvent { organizer: Some(ikal::Uri { params: Default::default(), uri: (format!("{}, {}", h.s(0), 1)).to_string() }), categories: vec![ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(1), 1)).to_string() }, ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(2), 1)).to_string() }, h.params::<ikal::Text>(3), h.params::<ikal::Text>(4)], recurid: recurid_, alarms: vec![ikal::VAlarm::from(h.alarm(6)), ikal::VAlarm::from(h.alarm(8)), ikal::VAlarm::from(h.audio(11)), ikal::VAlarm::from(h.audio(13))], geo: Some((h.s(14)).parse::<ikal::Geo>()?), transp: Some(ikal::TimeTransparency::Transparent), contact: vec![ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(15), 1)).to_string() }, h.params::<ikal::Text>(16), h.params::<ikal::Text>(17)], attach: vec![], exdate: vec![(h.s(18)).parse::<ikal::Date>()?, (h.s(19)).parse::<ikal::Date>()?, ("").parse::<ikal::Date>()?, ("20240331T023000").parse::<ikal::Date>()?, (h.s(20)).parse::<ikal::Date>()?], x_prop: h.todo(21).x_prop, url: Some(ikal::Uri { params: Default::default(), uri: (h.string(22)).to_string() }), description: Some(ikal::Text { params: Default::default(), text: (h.string(23)).to_string() }), uid: ikal::Text { params: Default::default(), text: (h.string(24)).to_string() }, summary: Some(ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }), resources: vec![ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(25), 1)).to_string() }, h.params::<ikal::Text>(26), h.params::<ikal::Text>(27)], dtstart: (h.s(28)).parse::<ikal::Date>()?, rdate: vec![(h.s(29)).parse::<ikal::RDate>()?, (h.string(30)).parse::<ikal::RDate>()?, (h.string(31)).parse::<ikal::RDate>()?], comment: comment_, class: Some(ikal::Class::Public), last_modified: Some((h.string(35)).parse::<ikal::DateTime>()?), iana_prop: h.todo(36).x_prop, duration: duration_, sequence: Some(h.u32(38)), rstatus: vec![ikal::RequestStatus { extdata: Some((h.s(39)).to_string()), statcode: h.f32(40), statdesc: (format!("{}, {}", h.s(41), 1)).to_string(), ..Default::default() }], location: Some(ikal::Text { params: Default::default(), text: (h.string(42)).to_string() }), rrule: Some((h.s(43)).parse::<ikal::Recur>()?), dtend: Some((h.s(44)).parse::<ikal::Date>()?), attendee: vec![ikal::Uri { params: Default::default(), uri: (format!("{}, {}", h.s(45), 1)).to_string() }, ikal::Uri { params: Default::default(), uri: (format!("{}, {}", h.s(46), 1)).to_string() }, h.params::<ikal::Uri>(47)], dtstamp: (h.s(48)).parse::<ikal::DateTime>()?, related_to: vec![ikal::Text { params: Default::default(), text: (h.s(49)).to_string() }], created: Some((h.s(50)).parse::<ikal::DateTime>()?), status: Some(ikal::Status::InProcess), priority: Some(h.u8(51) as u8), ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_13(h: &Holes) -> Outcome {
    let attendee_: Vec<ikal::Uri> = vec![h.params::<ikal::Uri>(11), h.params::<ikal::Uri>(12), h.params::<ikal::Uri>(13)];
    let attendee = attendee_.clone();
    let status_: Option<ikal::Status> = Some(ikal::Status::Tentative);
    let status = status_.clone();
    let created_: Option<ikal::DateTime> = None;
    let created = created_.clone();
    let duration_: Option<chrono::TimeDelta> = Some(h.length(33));
    let duration = duration_.clone();
    let class_: Option<ikal::Class> = Some(ikal::Class::Public);
    let class = class_.clone();
    let categories_: Vec<ikal::Text> = vec![h.params::<ikal::Text>(42)];
    let categories = categories_.clone();
    h.begin();
    let built = ikal::vevent! {
        rdate: [h.string(0), &h.string(1), h.s(2), h.s(3)],
        dtstamp: h.string(4) 
        sequence: h.u8(5) as u32,
        rstatus: [{
            statdesc: h.s(6),
        }],
        comment: [h.string(7)],
        contact: [h.s(8),],
        rrule: h.s(9) 
        priority: h.u8(10) 
        location: "a, b; c",
        attendee,
        status,
        x_prop: h.todo(14).x_prop,
        summary: "a, b; c",
        transp: Opaque,
        resources: [h.params::<ikal::Text>(15), h.params::<ikal::Text>(16), "a, b; c", h.string(17), h.string(18),],
        alarms: [h.alarm(19), h.alarm(21), h.audio(24)] 
        dtstart: "20240229T",
        geo: {
            lon: -0.25,
            lat: h.f32(25),
        },
        created,
        related_to: [h.s(27),],
        exdate: [h.s(28), h.s(29), h.string(30), &h.string(31),],
        recurid: h.string(32),
        duration,
        class,
        url: "a, b; c" 
        uid: h.string(34),
        description: format!("{}, {}", h.s(35), 1),
        dtend: "20240331T023000",
        iana_prop: h.todo(36).x_prop 
        last_modified: h.s(37),
        attach: [format!("{}, {}", h.s(38), 1), format!("{}, {}", h.s(39), 1), h.params::<ikal::Text>(40),],
        organizer: h.string(41),
        categories,
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VEvent, ikal::Error> { Ok(ikal::VEvent { rdate: vec![(h.string(0)).parse::<ikal::RDate>()?, (h.string(1)).parse::<ikal::RDate>()?, (h.s(2)).parse::<ikal::RDate>()?, (h.s(3)).parse::<ikal::RDate>()?], dtstamp: (h.string(4)).parse::<ikal::DateTime>()?, sequence: Some(h.u8(5) as u32), rstatus: vec![ikal::RequestStatus { statdesc: (h.s(6)).to_string(), ..Default::default() }], comment: vec![ikal::Text { params: Default::default(), text: (h.string(7)).to_string() }], contact: vec![ikal::Text { params: Default::default(), text: (h.s(8)).to_string() }], rrule: Some((h.s(9)).parse::<ikal::Recur>()?), priority: Some(h.u8(10)), location: Some(ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }), attendee: attendee_, status: status_, x_prop: h.todo(14).x_prop, summary: Some(ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }), transp: Some(ikal::TimeTransparency::Opaque), resources: vec![h.params::<ikal::Text>(15), h.params::<ikal::Text>(16), ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }, ikal::Text { params: Default::default(), text: (h.string(17)).to_string() }, ikal::Text { params: Default::default(), text: (h.string(18)).to_string() }], alarms: vec![ikal::VAlarm::from(h.alarm(19)), ikal::VAlarm::from(h.alarm(21)), ikal::VAlarm::from(h.audio(24))], dtstart: ("20240229T").parse::<ikal::Date>()?, geo: Some(ikal::Geo { lon: -0.25, lat: h.f32(25), ..Default::default() }), created: created_, related_to: vec![ikal::Text { params: Default::default(), text: (h.s(27)).to_string() }], exdate: vec![(h.s(28)).parse::<ikal::Date>()?, (h.s(29)).parse::<ikal::Date>()?, (h.string(30)).parse::<ikal::Date>()?, (h.string(31)).parse::<ikal::Date>()?], recurid: Some((h.string(32)).parse::<ikal::Date>()?), duration: duration_, class: class_, url: Some(ikal::Uri { params: Default::default(), uri: ("a, b; c").to_string() }), uid: ikal::Text { params: Default::default(), text: (h.string(34)).to_string() }, description: Some(ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(35), 1)).to_string() }), dtend: Some(("20240331T023000").parse::<ikal::Date>()?), iana_prop: h.todo(36).x_prop, last_modified: Some((h.s(37)).parse::<ikal::DateTime>()?), attach: vec![ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(38), 1)).to_string() }, ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(39), 1)).to_string() }, h.params::<ikal::Text>(40)], organizer: Some(ikal::Uri { params: Default::default(), uri: (h.string(41)).to_string() }), categories: categories_, ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_14(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::vtodo! {
        dtstamp: h.s(0),
        uid: h.s(1) 
        class: Public,
        completed: h.s(2),
        created: h.s(3) 
        dtstart: h.s(4),
        geo: h.s(5),
        last_modified: h.s(6),
        location: h.s(7),
        organizer: h.s(8),
        percent_complete: h.u8(9),
        priority: h.u8(10),
        recurid: h.s(11),
        sequence: h.u32(12),
        status: Tentative 
        summary: h.s(13),
        url: h.s(14),
        rrule: h.s(15),
        due: h.s(16) 
        duration: h.s(17) 
        attach: [h.s(18),],
        attendee: [h.s(19),] 
        categories: [h.s(20),],
        comment: [h.s(21),],
        contact: [h.s(22),],
        exdate: [h.s(23),],
        related_to: [h.s(24),],
        rdate: [h.s(25),],
        rstatus: [h.s(26),] 
        resources: [h.s(27),],
        x_prop: h.todo(28).x_prop 
        iana_prop: h.todo(29).x_prop,
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VTodo, ikal::Error> { Ok(ikal::VTodo { dtstamp: (h.s(0)).parse::<ikal::DateTime>()?, uid: ikal::Text { params: Default::default(), text: (h.s(1)).to_string() }, class: Some(ikal::Class::Public), completed: Some((h.s(2)).parse::<ikal::DateTime>()?), created: Some((h.s(3)).parse::<ikal::DateTime>()?), dtstart: Some((h.s(4)).parse::<ikal::Date>()?), geo: Some((h.s(5)).parse::<ikal::Geo>()?), last_modified: Some((h.s(6)).parse::<ikal::DateTime>()?), location: Some(ikal::Text { params: Default::default(), text: (h.s(7)).to_string() }), organizer: Some(ikal::Uri { params: Default::default(), uri: (h.s(8)).to_string() }), percent_complete: Some(h.u8(9)), priority: Some(h.u8(10)), recurid: Some((h.s(11)).parse::<ikal::Date>()?), sequence: Some(h.u32(12)), status: Some(ikal::Status::Tentative), summary: Some(ikal::Text { params: Default::default(), text: (h.s(13)).to_string() }), url: Some(ikal::Uri { params: Default::default(), uri: (h.s(14)).to_string() }), rrule: Some((h.s(15)).parse::<ikal::Recur>()?), due: Some((h.s(16)).parse::<ikal::Date>()?), duration: Some(ikal::parse_duration(h.s(17))?), attach: vec![ikal::Text { params: Default::default(), text: (h.s(18)).to_string() }], attendee: vec![ikal::Uri { params: Default::default(), uri: (h.s(19)).to_string() }], categories: vec![ikal::Text { params: Default::default(), text: (h.s(20)).to_string() }], comment: vec![ikal::Text { params: Default::default(), text: (h.s(21)).to_string() }], contact: vec![ikal::Text { params: Default::default(), text: (h.s(22)).to_string() }], exdate: vec![(h.s(23)).parse::<ikal::Date>()?], related_to: vec![ikal::Text { params: Default::default(), text: (h.s(24)).to_string() }], rdate: vec![(h.s(25)).parse::<ikal::RDate>()?], rstatus: vec![(h.s(26)).parse::<ikal::RequestStatus>()?], resources: vec![ikal::Text { params: Default::default(), text: (h.s(27)).to_string() }], x_prop: h.todo(28).x_prop, iana_prop: h.todo(29).x_prop, ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_15(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::vtodo! {
        dtstamp: h.s(0),
        uid: h.string(1) 
        class: Private 
        completed: h.s(2),
        created: h.s(3),
        dtstart: h.s(4),
        geo: {
            lat: h.f32(5),
            lon: h.f32(6) 
        },
        last_modified: h.s(7),
        location: h.string(8),
        organizer: h.string(9),
        percent_complete: h.u8(10),
        priority: h.u8(11),
        recurid: h.s(12),
        sequence: h.u32(13) 
        status: Confirmed,
        summary: h.string(14),
        url: h.string(15),
        rrule: {
            by_hour: [-5, 7, h.i8(16), h.i8(17),],
        },
        due: h.s(18),
        duration: h.s(19),
        attach: [h.string(20)],
        attendee: [h.string(21)],
        categories: [h.string(22)],
        comment: [h.string(23)],
        contact: [h.string(24)],
        exdate: [h.s(25)],
        related_to: [h.string(26)] 
        rdate: [h.s(27)],
        rstatus: [{
            extdata: h.s(28),
            statdesc: "a, b; c",
            statcode: h.f32(29),
        }] 
        resources: [h.string(30)],
        x_prop: h.todo(31).x_prop,
        iana_prop: h.todo(32).x_prop 
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VTodo, ikal::Error> { Ok(ikal::VTodo { dtstamp: (h.s(0)).parse::<ikal::DateTime>()?, uid: ikal::Text { params: Default::default(), text: (h.string(1)).to_string() }, class: Some(ikal::Class::Private), completed: Some((h.s(2)).parse::<ikal::DateTime>()?), created: Some((h.s(3)).parse::<ikal::DateTime>()?), dtstart: Some((h.s(4)).parse::<ikal::Date>()?), geo: Some(ikal::Geo { lat: h.f32(5), lon: h.f32(6), ..Default::default() }), last_modified: Some((h.s(7)).parse::<ikal::DateTime>()?), location: Some(ikal::Text { params: Default::default(), text: (h.string(8)).to_string() }), organizer: Some(ikal::Uri { params: Default::default(), uri: (h.string(9)).to_string() }), percent_complete: Some(h.u8(10)), priority: Some(h.u8(11)), recurid: Some((h.s(12)).parse::<ikal::Date>()?), sequence: Some(h.u32(13)), status: Some(ikal::Status::Confirmed), summary: Some(ikal::Text { params: Default::default(), text: (h.string(14)).to_string() }), url: Some(ikal::Uri { params: Default::default(), uri: (h.string(15)).to_string() }), rrule: Some(ikal::Recur { by_hour: vec![-5, 7, h.i8(16), h.i8(17)], ..Default::default() }), due: Some((h.s(18)).parse::<ikal::Date>()?), duration: Some(ikal::parse_duration(h.s(19))?), attach: vec![ikal::Text { params: Default::default(), text: (h.string(20)).to_string() }], attendee: vec![ikal::Uri { params: Default::default(), uri: (h.string(21)).to_string() }], categories: vec![ikal::Text { params: Default::default(), text: (h.string(22)).to_string() }], comment: vec![ikal::Text { params: Default::default(), text: (h.string(23)).to_string() }], contact: vec![ikal::Text { params: Default::default(), text: (h.string(24)).to_string() }], exdate: vec![(h.s(25)).parse::<ikal::Date>()?], related_to: vec![ikal::Text { params: Default::default(), text: (h.string(26)).to_string() }], rdate: vec![(h.s(27)).parse::<ikal::RDate>()?], rstatus: vec![ikal::RequestStatus { extdata: Some((h.s(28)).to_string()), statdesc: ("a, b; c").to_string(), statcode: h.f32(29), ..Default::default() }], resources: vec![ikal::Text { params: Default::default(), text: (h.string(30)).to_string() }], x_prop: h.todo(31).x_prop, iana_prop: h.todo(32).x_prop, ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_16(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::vtodo! {
        dtstamp: h.string(0) 
        uid: format!("{}, {}", h.s(1), 1),
        class: Confidential,
        completed: h.string(2),
        created: &h.string(3),
        dtstart: h.string(4),
        geo: &h.string(5),
        last_modified: h.string(6),
        location: format!("{}, {}", h.s(7), 1) 
        organizer: format!("{}, {}", h.s(8), 1),
        percent_complete: h.u8(9) as u8,
        priority: h.u8(10) as u8,
        recurid: &h.string(11),
        sequence: h.u8(12) as u32,
        status: Cancelled,
        summary: format!("{}, {}", h.s(13), 1) 
        url: format!("{}, {}", h.s(14), 1),
        rrule: &h.string(15),
        due: h.string(16),
        duration: &h.string(17),
        attach: [format!("{}, {}", h.s(18), 1), format!("{}, {}", h.s(19), 1), h.params::<ikal::Text>(20)] 
        attendee: [format!("{}, {}", h.s(21), 1), h.params::<ikal::Uri>(22)],
        categories: [format!("{}, {}", h.s(23), 1), h.params::<ikal::Text>(24)] 
        comment: [format!("{}, {}", h.s(25), 1), h.params::<ikal::Text>(26)],
        contact: [format!("{}, {}", h.s(27), 1), h.params::<ikal::Text>(28), h.params::<ikal::Text>(29)],
        exdate: [h.string(30), &h.string(31), h.s(32)],
        related_to: [format!("{}, {}", h.s(33), 1), h.params::<ikal::Text>(34), h.params::<ikal::Text>(35)],
        rdate: [h.string(36), h.s(37), h.s(38)],
        rstatus: [&h.string(39), {
            statcode: 2. * 0.5,
            extdata: h.string(40),
            statdesc: h.s(41),
        }, {
            statcode: h.f32(42),
            extdata: h.string(43),
        }],
        resources: [format!("{}, {}", h.s(44), 1), h.params::<ikal::Text>(45)],
        x_prop: h.todo(46).x_prop,
        iana_prop: h.todo(47).x_prop,
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VTodo, ikal::Error> { Ok(ikal::VTodo { dtstamp: (h.string(0)).parse::<ikal::DateTime>()?, uid: ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(1), 1)).to_string() }, class: Some(ikal::Class::Confidential), completed: Some((h.string(2)).parse::<ikal::DateTime>()?), created: Some((h.string(3)).parse::<ikal::DateTime>()?), dtstart: Some((h.string(4)).parse::<ikal::Date>()?), geo: Some((h.string(5)).parse::<ikal::Geo>()?), last_modified: Some((h.string(6)).parse::<ikal::DateTime>()?), location: Some(ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(7), 1)).to_string() }), organizer: Some(ikal::Uri { params: Default::default(), uri: (format!("{}, {}", h.s(8), 1)).to_string() }), percent_complete: Some(h.u8(9) as u8), priority: Some(h.u8(10) as u8), recurid: Some((h.string(11)).parse::<ikal::Date>()?), sequence: Some(h.u8(12) as u32), status: Some(ikal::Status::Cancelled), summary: Some(ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(13), 1)).to_string() }), url: Some(ikal::Uri { params: Default::default(), uri: (format!("{}, {}", h.s(14), 1)).to_string() }), rrule: Some((h.string(15)).parse::<ikal::Recur>()?), due: Some((h.string(16)).parse::<ikal::Date>()?), duration: Some(ikal::parse_duration(&h.string(17))?), attach: vec![ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(18), 1)).to_string() }, ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(19), 1)).to_string() }, h.params::<ikal::Text>(20)], attendee: vec![ikal::Uri { params: Default::default(), uri: (format!("{}, {}", h.s(21), 1)).to_string() }, h.params::<ikal::Uri>(22)], categories: vec![ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(23), 1)).to_string() }, h.params::<ikal::Text>(24)], comment: vec![ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(25), 1)).to_string() }, h.params::<ikal::Text>(26)], contact: vec![ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(27), 1)).to_string() }, h.params::<ikal::Text>(28), h.params::<ikal::Text>(29)], exdate: vec![(h.string(30)).parse::<ikal::Date>()?, (h.string(31)).parse::<ikal::Date>()?, (h.s(32)).parse::<ikal::Date>()?], related_to: vec![ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(33), 1)).to_string() }, h.params::<ikal::Text>(34), h.params::<ikal::Text>(35)], rdate: vec![(h.string(36)).parse::<ikal::RDate>()?, (h.s(37)).parse::<ikal::RDate>()?, (h.s(38)).parse::<ikal::RDate>()?], rstatus: vec![(h.string(39)).parse::<ikal::RequestStatus>()?, ikal::RequestStatus { statcode: 2. * 0.5, extdata: Some((h.string(40)).to_string()), statdesc: (h.s(41)).to_string(), ..Default::default() }, ikal::RequestStatus { statcode: h.f32(42), extdata: Some((h.string(43)).to_string()), ..Default::default() }], resources: vec![ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(44), 1)).to_string() }, h.params::<ikal::Text>(45)], x_prop: h.todo(46).x_prop, iana_prop: h.todo(47).x_prop, ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_17(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::vtodo! {
        dtstamp: h.s(0),
        uid: h.params::<ikal::Text>(1) 
        class: Custom(h.string(2)),
        completed: h.s(3),
        created: h.s(4),
        dtstart: h.s(5),
        geo: {
            lat: 1.5,
            lon: h.f32(6),
        },
        last_modified: h.s(7) 
        location: h.params::<ikal::Text>(8),
        organizer: h.params::<ikal::Uri>(9),
        percent_complete: 7,
        priority: 7,
        recurid: h.s(10),
        sequence: 1 + 2 
        status: NeedsAction 
        summary: h.params::<ikal::Text>(11),
        url: h.params::<ikal::Uri>(12) 
        rrule: {
            count: Some(h.u8(13)),
            by_hour: [1 + 2],
        },
        due: h.s(14),
        duration: h.s(15),
        attach: [h.params::<ikal::Text>(16), "a, b; c", h.string(17),],
        attendee: [h.params::<ikal::Uri>(18), "a, b; c", "a, b; c", h.string(19), h.string(20),],
        categories: [h.params::<ikal::Text>(21), "a, b; c", h.string(22),],
        comment: [h.params::<ikal::Text>(23), h.params::<ikal::Text>(24), "a, b; c", h.string(25), h.string(26),],
        contact: [h.params::<ikal::Text>(27), h.params::<ikal::Text>(28), "a, b; c", h.string(29), h.string(30),],
        exdate: [h.s(31), h.s(32), "20240229T", h.s(33),],
        related_to: [h.params::<ikal::Text>(34), h.params::<ikal::Text>(35), "a, b; c", "a, b; c", h.string(36), h.string(37),],
        rdate: [h.s(38), h.s(39), "20240229", h.s(40), h.s(41),],
        rstatus: [{
            statcode: 2. * 0.5,
        }, {
            extdata: h.string(42) 
            statcode: h.f32(43),
            statdesc: h.string(44),
        }, "2.0;Success", "Success", {
            statcode: h.f32(45),
            extdata: format!("{}, {}", h.s(46), 1),
            statdesc: h.string(47),
        }, {
            extdata: h.string(48) 
            statdesc: h.s(49),
            statcode: h.f32(50),
        },],
        resources: [h.params::<ikal::Text>(51), "a, b; c", h.string(52),],
        x_prop: h.todo(53).x_prop,
        iana_prop: h.todo(54).x_prop,
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VTodo, ikal::Error> { Ok(ikal::VTodo { dtstamp: (h.s(0)).parse::<ikal::DateTime>()?, uid: h.params::<ikal::Text>(1), class: Some(ikal::Class::Custom(h.string(2))), completed: Some((h.s(3)).parse::<ikal::DateTime>()?), created: Some((h.s(4)).parse::<ikal::DateTime>()?), dtstart: Some((h.s(5)).parse::<ikal::Date>()?), geo: Some(ikal::Geo { lat: 1.5, lon: h.f32(6), ..Default::default() }), last_modified: Some((h.s(7)).parse::<ikal::DateTime>()?), location: Some(h.params::<ikal::Text>(8)), organizer: Some(h.params::<ikal::Uri>(9)), percent_complete: Some(7), priority: Some(7), recurid: Some((h.s(10)).parse::<ikal::Date>()?), sequence: Some(1 + 2), status: Some(ikal::Status::NeedsAction), summary: Some(h.params::<ikal::Text>(11)), url: Some(h.params::<ikal::Uri>(12)), rrule: Some(ikal::Recur { count: Some(h.u8(13)), by_hour: vec![1 + 2], ..Default::default() }), due: Some((h.s(14)).parse::<ikal::Date>()?), duration: Some(ikal::parse_duration(h.s(15))?), attach: vec![h.params::<ikal::Text>(16), ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }, ikal::Text { params: Default::default(), text: (h.string(17)).to_string() }], attendee: vec![h.params::<ikal::Uri>(18), ikal::Uri { params: Default::default(), uri: ("a, b; c").to_string() }, ikal::Uri { params: Default::default(), uri: ("a, b; c").to_string() }, ikal::Uri { params: Default::default(), uri: (h.string(19)).to_string() }, ikal::Uri { params: Default::default(), uri: (h.string(20)).to_string() }], categories: vec![h.params::<ikal::Text>(21), ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }, ikal::Text { params: Default::default(), text: (h.string(22)).to_string() }], comment: vec![h.params::<ikal::Text>(23), h.params::<ikal::Text>(24), ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }, ikal::Text { params: Default::default(), text: (h.string(25)).to_string() }, ikal::Text { params: Default::default(), text: (h.string(26)).to_string() }], contact: vec![h.params::<ikal::Text>(27), h.params::<ikal::Text>(28), ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }, ikal::Text { params: Default::default(), text: (h.string(29)).to_string() }, ikal::Text { params: Default::default(), text: (h.string(30)).to_string() }], exdate: vec![(h.s(31)).parse::<ikal::Date>()?, (h.s(32)).parse::<ikal::Date>()?, ("20240229T").parse::<ikal::Date>()?, (h.s(33)).parse::<ikal::Date>()?], related_to: vec![h.params::<ikal::Text>(34), h.params::<ikal::Text>(35), ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }, ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }, ikal::Text { params: Default::default(), text: (h.string(36)).to_string() }, ikal::Text { params: Default::default(), text: (h.string(37)).to_string() }], rdate: vec![(h.s(38)).parse::<ikal::RDate>()?, (h.s(39)).parse::<ikal::RDate>()?, ("20240229").parse::<ikal::RDate>()?, (h.s(40)).parse::<ikal::RDate>()?, (h.s(41)).parse::<ikal::RDate>()?], rstatus: vec![ikal::RequestStatus { statcode: 2. * 0.5, ..Default::default() }, ikal::RequestStatus { extdata: Some((h.string(42)).to_string()), statcode: h.f32(43), statdesc: (h.string(44)).to_string(), ..Default::default() }, ("2.0;Success").parse::<ikal::RequestStatus>()?, ("Success").parse::<ikal::RequestStatus>()?, ikal::RequestStatus { statcode: h.f32(45), extdata: Some((format!("{}, {}", h.s(46), 1)).to_string()), statdesc: (h.string(47)).to_string(), ..Default::default() }, ikal::RequestStatus { extdata: Some((h.string(48)).to_string()), statdesc: (h.s(49)).to_string(), statcode: h.f32(50), ..Default::default() }], resources: vec![h.params::<ikal::Text>(51), ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }, ikal::Text { params: Default::default(), text: (h.string(52)).to_string() }], x_prop: h.todo(53).x_prop, iana_prop: h.todo(54).x_prop, ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_18(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::vtodo! {
        dtstamp: "20240331T023000",
        uid: "a, b; c",
        class: Public,
        completed: "20240331",
        created: "20240331",
        dtstart: "20240331T023000",
        geo: "48.85",
        last_modified: "20240331T023000",
        location: "a, b; c",
        organizer: "a, b; c",
        percent_complete: h.u8(0) 
        priority: h.u8(1),
        recurid: "20240229T",
        sequence: h.u32(2) 
        status: Completed 
        summary: "a, b; c" 
        url: "a, b; c",
        rrule: "FREQ=WEEKLY;INTERVAL=2",
        due: "20240229T",
        duration: "P1DT2H",
        attach: [] 
        attendee: [],
        categories: [],
        comment: [],
        contact: [],
        exdate: [],
        related_to: [],
        rdate: [],
        rstatus: [] 
        resources: [],
        x_prop: h.todo(3).x_prop 
        iana_prop: h.todo(4).x_prop 
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VTodo, ikal::Error> { Ok(ikal::VTodo { dtstamp: ("20240331T023000").parse::<ikal::DateTime>()?, uid: ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }, class: Some(ikal::Class::Public), completed: Some(("20240331").parse::<ikal::DateTime>()?), created: Some(("20240331").parse::<ikal::DateTime>()?), dtstart: Some(("20240331T023000").parse::<ikal::Date>()?), geo: Some(("48.85").parse::<ikal::Geo>()?), last_modified: Some(("20240331T023000").parse::<ikal::DateTime>()?), location: Some(ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }), organizer: Some(ikal::Uri { params: Default::default(), uri: ("a, b; c").to_string() }), percent_complete: Some(h.u8(0)), priority: Some(h.u8(1)), recurid: Some(("20240229T").parse::<ikal::Date>()?), sequence: Some(h.u32(2)), status: Some(ikal::Status::Completed), summary: Some(ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }), url: Some(ikal::Uri { params: Default::default(), uri: ("a, b; c").to_string() }), rrule: Some(("FREQ=WEEKLY;INTERVAL=2").parse::<ikal::Recur>()?), due: Some(("20240229T").parse::<ikal::Date>()?), duration: Some(ikal::parse_duration("P1DT2H")?), attach: vec![], attendee: vec![], categories: vec![], comment: vec![], contact: vec![], exdate: vec![], related_to: vec![], rdate: vec![], rstatus: vec![], resources: vec![], x_prop: h.todo(3).x_prop, iana_prop: h.todo(4).x_prop, ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_19(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::vtodo! {
        dtstamp: h.s(0),
        uid: h.string(1),
        class: Private 
        completed: h.s(2),
        created: h.s(3),
        dtstart: h.s(4) 
        geo: {
            lon: h.f32(5) 
            lat: h.f32(6),
        },
        last_modified: h.s(7),
        location: h.string(8),
        organizer: h.string(9),
        percent_complete: h.u8(10),
        priority: h.u8(11) 
        recurid: h.s(12),
        sequence: h.u32(13),
        status: InProcess,
        summary: h.string(14),
        url: h.string(15),
        rrule: {
            interval: h.u8(16),
            by_weekno: [h.i8(17),],
            by_minute: [h.i8(18)],
            by_monthday: [h.u8(19) as i8, h.u8(20) as i8, -1,] 
        },
        due: h.s(21),
        duration: h.s(22),
        attach: [h.string(23)],
        attendee: [h.string(24)] 
        categories: [h.string(25)] 
        comment: [h.string(26)],
        contact: [h.string(27)],
        exdate: [h.s(28)],
        related_to: [h.string(29)] 
        rdate: [h.s(30)],
        rstatus: [{
            statcode: -0.25,
            extdata: h.string(31),
            statdesc: "a, b; c",
        }],
        resources: [h.string(32)],
        x_prop: h.todo(33).x_prop 
        iana_prop: h.todo(34).x_prop,
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VTodo, ikal::Error> { Ok(ikal::VTodo { dtstamp: (h.s(0)).parse::<ikal::DateTime>()?, uid: ikal::Text { params: Default::default(), text: (h.string(1)).to_string() }, class: Some(ikal::Class::Private), completed: Some((h.s(2)).parse::<ikal::DateTime>()?), created: Some((h.s(3)).parse::<ikal::DateTime>()?), dtstart: Some((h.s(4)).parse::<ikal::Date>()?), geo: Some(ikal::Geo { lon: h.f32(5), lat: h.f32(6), ..Default::default() }), last_modified: Some((h.s(7)).parse::<ikal::DateTime>()?), location: Some(ikal::Text { params: Default::default(), text: (h.string(8)).to_string() }), organizer: Some(ikal::Uri { params: Default::default(), uri: (h.string(9)).to_string() }), percent_complete: Some(h.u8(10)), priority: Some(h.u8(11)), recurid: Some((h.s(12)).parse::<ikal::Date>()?), sequence: Some(h.u32(13)), status: Some(ikal::Status::InProcess), summary: Some(ikal::Text { params: Default::default(), text: (h.string(14)).to_string() }), url: Some(ikal::Uri { params: Default::default(), uri: (h.string(15)).to_string() }), rrule: Some(ikal::Recur { interval: h.u8(16), by_weekno: vec![h.i8(17)], by_minute: vec![h.i8(18)], by_monthday: vec![h.u8(19) as i8, h.u8(20) as i8, -1], ..Default::default() }), due: Some((h.s(21)).parse::<ikal::Date>()?), duration: Some(ikal::parse_duration(h.s(22))?), attach: vec![ikal::Text { params: Default::default(), text: (h.string(23)).to_string() }], attendee: vec![ikal::Uri { params: Default::default(), uri: (h.string(24)).to_string() }], categories: vec![ikal::Text { params: Default::default(), text: (h.string(25)).to_string() }], comment: vec![ikal::Text { params: Default::default(), text: (h.string(26)).to_string() }], contact: vec![ikal::Text { params: Default::default(), text: (h.string(27)).to_string() }], exdate: vec![(h.s(28)).parse::<ikal::Date>()?], related_to: vec![ikal::Text { params: Default::default(), text: (h.string(29)).to_string() }], rdate: vec![(h.s(30)).parse::<ikal::RDate>()?], rstatus: vec![ikal::RequestStatus { statcode: -0.25, extdata: Some((h.string(31)).to_string()), statdesc: ("a, b; c").to_string(), ..Default::default() }], resources: vec![ikal::Text { params: Default::default(), text: (h.string(32)).to_string() }], x_prop: h.todo(33).x_prop, iana_prop: h.todo(34).x_prop, ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_20(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::vtodo! {
        dtstamp: h.s(0),
        uid: format!("{}, {}", h.s(1), 1),
        class: Confidential,
        completed: h.s(2),
        created: h.s(3),
        dtstart: h.s(4),
        geo: h.s(5),
        last_modified: h.s(6) 
        location: format!("{}, {}", h.s(7), 1),
        organizer: format!("{}, {}", h.s(8), 1) 
        percent_complete: h.u8(9) as u8,
        priority: h.u8(10) as u8,
        recurid: h.s(11) 
        sequence: h.u8(12) as u32,
        status: Draft,
        summary: format!("{}, {}", h.s(13), 1),
        url: format!("{}, {}", h.s(14), 1),
        rrule: h.s(15) 
        due: h.s(16),
        duration: h.s(17),
        attach: [format!("{}, {}", h.s(18), 1), format!("{}, {}", h.s(19), 1), h.params::<ikal::Text>(20), h.params::<ikal::Text>(21),] 
        attendee: [format!("{}, {}", h.s(22), 1), h.params::<ikal::Uri>(23), h.params::<ikal::Uri>(24),],
        categories: [format!("{}, {}", h.s(25), 1), format!("{}, {}", h.s(26), 1), h.params::<ikal::Text>(27), h.params::<ikal::Text>(28),],
        comment: [format!("{}, {}", h.s(29), 1), format!("{}, {}", h.s(30), 1), h.params::<ikal::Text>(31),],
        contact: [format!("{}, {}", h.s(32), 1), h.params::<ikal::Text>(33),],
        exdate: [h.s(34), &h.string(35), h.string(36),],
        related_to: [format!("{}, {}", h.s(37), 1), h.params::<ikal::Text>(38), h.params::<ikal::Text>(39),],
        rdate: [h.s(40), h.s(41), h.string(42),],
        rstatus: [h.s(43), {
            extdata: h.string(44),
            statcode: h.f32(45),
            statdesc: h.s(46),
        },],
        resources: [format!("{}, {}", h.s(47), 1), h.params::<ikal::Text>(48),],
        x_prop: h.todo(49).x_prop,
        iana_prop: h.todo(50).x_prop,
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VTodo, ikal::Error> { Ok(ikal::VTodo { dtstamp: (h.s(0)).parse::<ikal::DateTime>()?, uid: ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(1), 1)).to_string() }, class: Some(ikal::Class::Confidential), completed: Some((h.s(2)).parse::<ikal::DateTime>()?), created: Some((h.s(3)).parse::<ikal::DateTime>()?), dtstart: Some((h.s(4)).parse::<ikal::Date>()?), geo: Some((h.s(5)).parse::<ikal::Geo>()?), last_modified: Some((h.s(6)).parse::<ikal::DateTime>()?), location: Some(ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(7), 1)).to_string() }), organizer: Some(ikal::Uri { params: Default::default(), uri: (format!("{}, {}", h.s(8), 1)).to_string() }), percent_complete: Some(h.u8(9) as u8), priority: Some(h.u8(10) as u8), recurid: Some((h.s(11)).parse::<ikal::Date>()?), sequence: Some(h.u8(12) as u32), status: Some(ikal::Status::Draft), summary: Some(ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(13), 1)).to_string() }), url: Some(ikal::Uri { params: Default::default(), uri: (format!("{}, {}", h.s(14), 1)).to_string() }), rrule: Some((h.s(15)).parse::<ikal::Recur>()?), due: Some((h.s(16)).parse::<ikal::Date>()?), duration: Some(ikal::parse_duration(h.s(17))?), attach: vec![ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(18), 1)).to_string() }, ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(19), 1)).to_string() }, h.params::<ikal::Text>(20), h.params::<ikal::Text>(21)], attendee: vec![ikal::Uri { params: Default::default(), uri: (format!("{}, {}", h.s(22), 1)).to_string() }, h.params::<ikal::Uri>(23), h.params::<ikal::Uri>(24)], categories: vec![ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(25), 1)).to_string() }, ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(26), 1)).to_string() }, h.params::<ikal::Text>(27), h.params::<ikal::Text>(28)], comment: vec![ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(29), 1)).to_string() }, ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(30), 1)).to_string() }, h.params::<ikal::Text>(31)], contact: vec![ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(32), 1)).to_string() }, h.params::<ikal::Text>(33)], exdate: vec![(h.s(34)).parse::<ikal::Date>()?, (h.string(35)).parse::<ikal::Date>()?, (h.string(36)).parse::<ikal::Date>()?], related_to: vec![ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(37), 1)).to_string() }, h.params::<ikal::Text>(38), h.params::<ikal::Text>(39)], rdate: vec![(h.s(40)).parse::<ikal::RDate>()?, (h.s(41)).parse::<ikal::RDate>()?, (h.string(42)).parse::<ikal::RDate>()?], rstatus: vec![(h.s(43)).parse::<ikal::RequestStatus>()?, ikal::RequestStatus { extdata: Some((h.string(44)).to_string()), statcode: h.f32(45), statdesc: (h.s(46)).to_string(), ..Default::default() }], resources: vec![ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(47), 1)).to_string() }, h.params::<ikal::Text>(48)], x_prop: h.todo(49).x_prop, iana_prop: h.todo(50).x_prop, ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_21(h: &Holes) -> Outcome {
    let dtstamp_: ikal::DateTime = h.parsed::<ikal::DateTime>(0);
    let dtstamp = dtstamp_.clone();
    let uid_: ikal::Text = h.params::<ikal::Text>(1);
    let uid = uid_.clone();
    let class_: Option<ikal::Class> = Some(ikal::Class::Public);
    let class = class_.clone();
    let completed_: Option<ikal::DateTime> = Some(h.parsed::<ikal::DateTime>(2));
    let completed = completed_.clone();
    let created_: Option<ikal::DateTime> = Some(h.parsed::<ikal::DateTime>(3));
    let created = created_.clone();
    let dtstart_: Option<ikal::Date> = None;
    let dtstart = dtstart_.clone();
    let geo_: Option<ikal::Geo> = Some(h.parsed::<ikal::Geo>(5));
    let geo = geo_.clone();
    let last_modified_: Option<ikal::DateTime> = None;
    let last_modified = last_modified_.clone();
    let location_: Option<ikal::Text> = Some(h.params::<ikal::Text>(7));
    let location = location_.clone();
    let organizer_: Option<ikal::Uri> = Some(h.params::<ikal::Uri>(8));
    let organizer = organizer_.clone();
    let percent_complete_: Option<u8> = None;
    let percent_complete = percent_complete_.clone();
    let priority_: Option<u8> = None;
    let priority = priority_.clone();
    let recurid_: Option<ikal::Date> = Some(h.parsed::<ikal::Date>(11));
    let recurid = recurid_.clone();
    let sequence_: Option<u32> = Some(h.u32(12));
    let sequence = sequence_.clone();
    let status_: Option<ikal::Status> = Some(ikal::Status::Tentative);
    let status = status_.clone();
    let summary_: Option<ikal::Text> = Some(h.params::<ikal::Text>(13));
    let summary = summary_.clone();
    let url_: Option<ikal::Uri> = Some(h.params::<ikal::Uri>(14));
    let url = url_.clone();
    let rrule_: Option<ikal::Recur> = None;
    let rrule = rrule_.clone();
    let due_: Option<ikal::Date> = None;
    let due = due_.clone();
    let duration_: Option<chrono::TimeDelta> = Some(h.length(17));
    let duration = duration_.clone();
    let attach_: Vec<ikal::Text> = vec![h.params::<ikal::Text>(18), h.params::<ikal::Text>(19)];
    let attach = attach_.clone();
    let attendee_: Vec<ikal::Uri> = vec![h.params::<ikal::Uri>(20), h.params::<ikal::Uri>(21), h.params::<ikal::Uri>(22)];
    let attendee = attendee_.clone();
    let categories_: Vec<ikal::Text> = vec![h.params::<ikal::Text>(23), h.params::<ikal::Text>(24)];
    let categories = categories_.clone();
    let comment_: Vec<ikal::Text> = vec![h.params::<ikal::Text>(25), h.params::<ikal::Text>(26)];
    let comment = comment_.clone();
    let contact_: Vec<ikal::Text> = vec![h.params::<ikal::Text>(27)];
    let contact = contact_.clone();
    let exdate_: Vec<ikal::Date> = vec![h.parsed::<ikal::Date>(28), h.parsed::<ikal::Date>(29)];
    let exdate = exdate_.clone();
    let related_to_: Vec<ikal::Text> = vec![h.params::<ikal::Text>(30), h.params::<ikal::Text>(31)];
    let related_to = related_to_.clone();
    let rdate_: Vec<ikal::RDate> = vec![h.parsed::<ikal::RDate>(32), h.parsed::<ikal::RDate>(33), h.parsed::<ikal::RDate>(34)];
    let rdate = rdate_.clone();
    let rstatus_: Vec<ikal::RequestStatus> = vec![h.parsed::<ikal::RequestStatus>(35), h.parsed::<ikal::RequestStatus>(36)];
    let rstatus = rstatus_.clone();
    let resources_: Vec<ikal::Text> = vec![h.params::<ikal::Text>(37)];
    let resources = resources_.clone();
    let x_prop_: std::collections::BTreeMap<String, _> = h.todo(38).x_prop;
    let x_prop = x_prop_.clone();
    let iana_prop_: std::collections::BTreeMap<String, _> = h.todo(39).x_prop;
    let iana_prop = iana_prop_.clone();
    h.begin();
    let built = ikal::vtodo! {
        dtstamp,
        uid,
        class,
        completed,
        created,
        dtstart,
        geo,
        last_modified,
        location,
        organizer,
        percent_complete,
        priority,
        recurid,
        sequence,
        status,
        summary,
        url,
        rrule,
        due,
        duration,
        attach,
        attendee,
        categories,
        comment,
        contact,
        exdate,
        related_to,
        rdate,
        rstatus,
        resources,
        x_prop,
        iana_prop,
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VTodo, ikal::Error> { Ok(ikal::VTodo { dtstamp: dtstamp_, uid: uid_, class: class_, completed: completed_, created: created_, dtstart: dtstart_, geo: geo_, last_modified: last_modified_, location: location_, organizer: organizer_, percent_complete: percent_complete_, priority: priority_, recurid: recurid_, sequence: sequence_, status: status_, summary: summary_, url: url_, rrule: rrule_, due: due_, duration: duration_, attach: attach_, attendee: attendee_, categories: categories_, comment: comment_, contact: contact_, exdate: exdate_, related_to: related_to_, rdate: rdate_, rstatus: rstatus_, resources: resources_, x_prop: x_prop_, iana_prop: iana_prop_, ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_22(h: &Holes) -> Outcome {
    let rrule_: Option<ikal::Recur> = Some(h.parsed::<ikal::Recur>(18));
    let rrule = rrule_.clone();
    h.begin();
    let built = ikal::vtodo! {
        url: "a, b; c",
        attendee: [format!("{}, {}", h.s(0), 1), format!("{}, {}", h.s(1), 1), h.params::<ikal::Uri>(2), h.params::<ikal::Uri>(3)],
        related_to: [h.string(4)],
        rstatus: [],
        dtstamp: h.s(5),
        comment: [h.params::<ikal::Text>(6), h.params::<ikal::Text>(7), "a, b; c", "a, b; c", h.string(8),],
        completed: "20240331",
        class: Private,
        duration: h.s(9),
        last_modified: "20240331T023000",
        location: "a, b; c",
        due: h.string(10),
        status: Cancelled,
        exdate: [&h.string(11), h.string(12), h.s(13), h.s(14)],
        uid: format!("{}, {}", h.s(15), 1),
        dtstart: "20240331T023000",
        organizer: h.s(16),
        created: h.s(17),
        rrule,
        attach: [h.params::<ikal::Text>(19), "a, b; c", h.string(20),],
        percent_complete: h.u8(21) as u8,
        recurid: "20240331T023000",
        summary: format!("{}, {}", h.s(22), 1),
        x_prop: h.todo(23).x_prop,
        geo: h.string(24),
        priority: h.u8(25),
        iana_prop: h.todo(26).x_prop,
        rdate: [h.s(27),] 
        contact: [h.s(28),],
        categories: [format!("{}, {}", h.s(29), 1), h.params::<ikal::Text>(30),],
        sequence: h.u8(31) as u32,
        resources: [h.string(32)],
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VTodo, ikal::Error> { Ok(ikal::VTodo { url: Some(ikal::Uri { params: Default::default(), uri: ("a, b; c").to_string() }), attendee: vec![ikal::Uri { params: Default::default(), uri: (format!("{}, {}", h.s(0), 1)).to_string() }, ikal::Uri { params: Default::default(), uri: (format!("{}, {}", h.s(1), 1)).to_string() }, h.params::<ikal::Uri>(2), h.params::<ikal::Uri>(3)], related_to: vec![ikal::Text { params: Default::default(), text: (h.string(4)).to_string() }], rstatus: vec![], dtstamp: (h.s(5)).parse::<ikal::DateTime>()?, comment: vec![h.params::<ikal::Text>(6), h.params::<ikal::Text>(7), ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }, ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }, ikal::Text { params: Default::default(), text: (h.string(8)).to_string() }], completed: Some(("20240331").parse::<ikal::DateTime>()?), class: Some(ikal::Class::Private), duration: Some(ikal::parse_duration(h.s(9))?), last_modified: Some(("20240331T023000").parse::<ikal::DateTime>()?), location: Some(ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }), due: Some((h.string(10)).parse::<ikal::Date>()?), status: Some(ikal::Status::Cancelled), exdate: vec![(h.string(11)).parse::<ikal::Date>()?, (h.string(12)).parse::<ikal::Date>()?, (h.s(13)).parse::<ikal::Date>()?, (h.s(14)).parse::<ikal::Date>()?], uid: ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(15), 1)).to_string() }, dtstart: Some(("20240331T023000").parse::<ikal::Date>()?), organizer: Some(ikal::Uri { params: Default::default(), uri: (h.s(16)).to_string() }), created: Some((h.s(17)).parse::<ikal::DateTime>()?), rrule: rrule_, attach: vec![h.params::<ikal::Text>(19), ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }, ikal::Text { params: Default::default(), text: (h.string(20)).to_string() }], percent_complete: Some(h.u8(21) as u8), recurid: Some(("20240331T023000").parse::<ikal::Date>()?), summary: Some(ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(22), 1)).to_string() }), x_prop: h.todo(23).x_prop, geo: Some((h.string(24)).parse::<ikal::Geo>()?), priority: Some(h.u8(25)), iana_prop: h.todo(26).x_prop, rdate: vec![(h.s(27)).parse::<ikal::RDate>()?], contact: vec![ikal::Text { params: Default::default(), text: (h.s(28)).to_string() }], categories: vec![ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(29), 1)).to_string() }, h.params::<ikal::Text>(30)], sequence: Some(h.u8(31) as u32), resources: vec![ikal::Text { params: Default::default(), text: (h.string(32)).to_string() }], ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_23(h: &Holes) -> Outcome {
    let attach_: Vec<ikal::Text> = vec![h.params::<ikal::Text>(0), h.params::<ikal::Text>(1)];
    let attach = attach_.clone();
    let duration_: Option<chrono::TimeDelta> = Some(h.length(22));
    let duration = duration_.clone();
    h.begin();
    let built = ikal::vtodo! {
        attach,
        priority: h.u8(2),
        resources: [format!("{}, {}", h.s(3), 1), h.params::<ikal::Text>(4),],
        dtstart: h.s(5),
        rstatus: [{
            extdata: "a, b; c" 
            statdesc: h.s(6),
            statcode: h.f32(7),
        }, "Success", {
            extdata: format!("{}, {}", h.s(8), 1),
        },],
        recurid: h.s(9) 
        uid: format!("{}, {}", h.s(10), 1),
        status: NeedsAction,
        dtstamp: h.s(11),
        rdate: [h.s(12), h.s(13), h.string(14), &h.string(15),],
        due: h.s(16),
        x_prop: h.todo(17).x_prop 
        categories: [format!("{}, {}", h.s(18), 1), h.params::<ikal::Text>(19)],
        organizer: "a, b; c",
        contact: [h.s(20),] 
        comment: [h.string(21)],
        summary: "a, b; c",
        created: "20240331T023000",
        duration,
        related_to: [format!("{}, {}", h.s(23), 1), format!("{}, {}", h.s(24), 1), h.params::<ikal::Text>(25),],
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VTodo, ikal::Error> { Ok(ikal::VTodo { attach: attach_, priority: Some(h.u8(2)), resources: vec![ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(3), 1)).to_string() }, h.params::<ikal::Text>(4)], dtstart: Some((h.s(5)).parse::<ikal::Date>()?), rstatus: vec![ikal::RequestStatus { extdata: Some(("a, b; c").to_string()), statdesc: (h.s(6)).to_string(), statcode: h.f32(7), ..Default::default() }, ("Success").parse::<ikal::RequestStatus>()?, ikal::RequestStatus { extdata: Some((format!("{}, {}", h.s(8), 1)).to_string()), ..Default::default() }], recurid: Some((h.s(9)).parse::<ikal::Date>()?), uid: ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(10), 1)).to_string() }, status: Some(ikal::Status::NeedsAction), dtstamp: (h.s(11)).parse::<ikal::DateTime>()?, rdate: vec![(h.s(12)).parse::<ikal::RDate>()?, (h.s(13)).parse::<ikal::RDate>()?, (h.string(14)).parse::<ikal::RDate>()?, (h.string(15)).parse::<ikal::RDate>()?], due: Some((h.s(16)).parse::<ikal::Date>()?), x_prop: h.todo(17).x_prop, categories: vec![ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(18), 1)).to_string() }, h.params::<ikal::Text>(19)], organizer: Some(ikal::Uri { params: Default::default(), uri: ("a, b; c").to_string() }), contact: vec![ikal::Text { params: Default::default(), text: (h.s(20)).to_string() }], comment: vec![ikal::Text { params: Default::default(), text: (h.string(21)).to_string() }], summary: Some(ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }), created: Some(("20240331T023000").parse::<ikal::DateTime>()?), duration: duration_, related_to: vec![ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(23), 1)).to_string() }, ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(24), 1)).to_string() }, h.params::<ikal::Text>(25)], ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_24(h: &Holes) -> Outcome {
    let rdate_: Vec<ikal::RDate> = vec![h.parsed::<ikal::RDate>(6)];
    let rdate = rdate_.clone();
    let priority_: Option<u8> = Some(h.u8(13));
    let priority = priority_.clone();
    h.begin();
    let built = ikal::vtodo! {
        rstatus: [],
        sequence: h.u32(0),
        summary: h.string(1) 
        comment: [h.s(2),],
        categories: [h.string(3)],
        location: h.string(4) 
        organizer: h.string(5) 
        rdate,
        percent_complete: h.u8(7) as u8,
        recurid: h.s(8),
        rrule: {
            until: Some(h.parsed::<ikal::Date>(9)),
            by_month: [h.i8(10)],
        },
        created: h.s(11),
        related_to: [],
        x_prop: h.todo(12).x_prop,
        priority,
        class: Public,
        status: Confirmed 
        contact: [h.string(14)],
        resources: [h.string(15)] 
        attendee: [],
        exdate: [h.s(16)],
        last_modified: h.s(17) 
        iana_prop: h.todo(18).x_prop 
        url: h.string(19),
        completed: h.string(20),
        uid: "a, b; c",
        attach: [h.string(21)],
        dtstart: h.s(22),
        dtstamp: h.s(23),
        geo: "48.85;2.35",
        due: h.s(24),
        duration: "1D" 
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VTodo, ikal::Error> { Ok(ikal::VTodo { rstatus: vec![], sequence: Some(h.u32(0)), summary: Some(ikal::Text { params: Default::default(), text: (h.string(1)).to_string() }), comment: vec![ikal::Text { params: Default::default(), text: (h.s(2)).to_string() }], categories: vec![ikal::Text { params: Default::default(), text: (h.string(3)).to_string() }], location: Some(ikal::Text { params: Default::default(), text: (h.string(4)).to_string() }), organizer: Some(ikal::Uri { params: Default::default(), uri: (h.string(5)).to_string() }), rdate: rdate_, percent_complete: Some(h.u8(7) as u8), recurid: Some((h.s(8)).parse::<ikal::Date>()?), rrule: Some(ikal::Recur { until: Some(h.parsed::<ikal::Date>(9)), by_month: vec![h.i8(10)], ..Default::default() }), created: Some((h.s(11)).parse::<ikal::DateTime>()?), related_to: vec![], x_prop: h.todo(12).x_prop, priority: priority_, class: Some(ikal::Class::Public), status: Some(ikal::Status::Confirmed), contact: vec![ikal::Text { params: Default::default(), text: (h.string(14)).to_string() }], resources: vec![ikal::Text { params: Default::default(), text: (h.string(15)).to_string() }], attendee: vec![], exdate: vec![(h.s(16)).parse::<ikal::Date>()?], last_modified: Some((h.s(17)).parse::<ikal::DateTime>()?), iana_prop: h.todo(18).x_prop, url: Some(ikal::Uri { params: Default::default(), uri: (h.string(19)).to_string() }), completed: Some((h.string(20)).parse::<ikal::DateTime>()?), uid: ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }, attach: vec![ikal::Text { params: Default::default(), text: (h.string(21)).to_string() }], dtstart: Some((h.s(22)).parse::<ikal::Date>()?), dtstamp: (h.s(23)).parse::<ikal::DateTime>()?, geo: Some(("48.85;2.35").parse::<ikal::Geo>()?), due: Some((h.s(24)).parse::<ikal::Date>()?), duration: Some(ikal::parse_duration("1D")?), ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_25(h: &Holes) -> Outcome {
    let comment_: Vec<ikal::Text> = vec![h.params::<ikal::Text>(8), h.params::<ikal::Text>(9), h.params::<ikal::Text>(10)];
    let comment = comment_.clone();
    h.begin();
    let built = ikal::vtodo! {
        percent_complete: 7,
        last_modified: h.s(0) 
        dtstart: h.s(1),
        categories: [h.params::<ikal::Text>(2), h.params::<ikal::Text>(3), "a, b; c", h.string(4),],
        attendee: [h.params::<ikal::Uri>(5), h.params::<ikal::Uri>(6), "a, b; c", h.string(7),],
        comment,
        priority: h.u8(11),
        related_to: [h.string(12)],
        sequence: h.u8(13) as u32 
        rdate: [h.s(14)],
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VTodo, ikal::Error> { Ok(ikal::VTodo { percent_complete: Some(7), last_modified: Some((h.s(0)).parse::<ikal::DateTime>()?), dtstart: Some((h.s(1)).parse::<ikal::Date>()?), categories: vec![h.params::<ikal::Text>(2), h.params::<ikal::Text>(3), ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }, ikal::Text { params: Default::default(), text: (h.string(4)).to_string() }], attendee: vec![h.params::<ikal::Uri>(5), h.params::<ikal::Uri>(6), ikal::Uri { params: Default::default(), uri: ("a, b; c").to_string() }, ikal::Uri { params: Default::default(), uri: (h.string(7)).to_string() }], comment: comment_, priority: Some(h.u8(11)), related_to: vec![ikal::Text { params: Default::default(), text: (h.string(12)).to_string() }], sequence: Some(h.u8(13) as u32), rdate: vec![(h.s(14)).parse::<ikal::RDate>()?], ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_26(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::vtodo! {
        created: h.string(0),
        geo: {
            lon: h.f32(1),
            lat: h.f32(2) 
        },
        exdate: [h.s(3), h.s(4), &h.string(5),],
        contact: [],
        class: Custom(h.string(6)),
        x_prop: h.todo(7).x_prop,
        recurid: h.s(8),
        status: Cancelled,
        comment: [h.s(9),],
        sequence: 0,
        completed: h.s(10),
        rrule: &h.string(11),
        uid: "a, b; c" 
        attendee: [],
        due: h.string(12),
        last_modified: h.s(13),
        percent_complete: h.u8(14) 
        dtstart: h.s(15),
        duration: h.s(16),
        url: h.string(17),
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VTodo, ikal::Error> { Ok(ikal::VTodo { created: Some((h.string(0)).parse::<ikal::DateTime>()?), geo: Some(ikal::Geo { lon: h.f32(1), lat: h.f32(2), ..Default::default() }), exdate: vec![(h.s(3)).parse::<ikal::Date>()?, (h.s(4)).parse::<ikal::Date>()?, (h.string(5)).parse::<ikal::Date>()?], contact: vec![], class: Some(ikal::Class::Custom(h.string(6))), x_prop: h.todo(7).x_prop, recurid: Some((h.s(8)).parse::<ikal::Date>()?), status: Some(ikal::Status::Cancelled), comment: vec![ikal::Text { params: Default::default(), text: (h.s(9)).to_string() }], sequence: Some(0), completed: Some((h.s(10)).parse::<ikal::DateTime>()?), rrule: Some((h.string(11)).parse::<ikal::Recur>()?), uid: ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }, attendee: vec![], due: Some((h.string(12)).parse::<ikal::Date>()?), last_modified: Some((h.s(13)).parse::<ikal::DateTime>()?), percent_complete: Some(h.u8(14)), dtstart: Some((h.s(15)).parse::<ikal::Date>()?), duration: Some(ikal::parse_duration(h.s(16))?), url: Some(ikal::Uri { params: Default::default(), uri: (h.string(17)).to_string() }), ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_27(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::vtodo! {
        attendee: [format!("{}, {}", h.s(0), 1), h.params::<ikal::Uri>(1), h.params::<ikal::Uri>(2)],
        completed: h.s(3),
        categories: [format!("{}, {}", h.s(4), 1), format!("{}, {}", h.s(5), 1), h.params::<ikal::Text>(6)] 
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VTodo, ikal::Error> { Ok(ikal::VTodo { attendee: vec![ikal::Uri { params: Default::default(), uri: (format!("{}, {}", h.s(0), 1)).to_string() }, h.params::<ikal::Uri>(1), h.params::<ikal::Uri>(2)], completed: Some((h.s(3)).parse::<ikal::DateTime>()?), categories: vec![ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(4), 1)).to_string() }, ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(5), 1)).to_string() }, h.params::<ikal::Text>(6)], ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_28(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::vjournal! {
        dtstamp: h.s(0),
        uid: h.s(1),
        class: Public,
        created: h.s(2),
        dtstart: h.s(3),
        last_modified: h.s(4),
        organizer: h.s(5),
        recurid: h.s(6),
        sequence: h.u32(7),
        status: Tentative 
        summary: h.s(8),
        url: h.s(9),
        rrule: h.s(10),
        attach: [h.s(11),],
        attendee: [h.s(12),],
        categories: [h.s(13),],
        comment: [h.s(14),],
        contact: [h.s(15),],
        exdate: [h.s(16),] 
        related_to: [h.s(17),],
        rdate: [h.s(18),],
        rstatus: [h.s(19),],
        description: [h.s(20),],
        x_prop: h.todo(21).x_prop,
        iana_prop: h.todo(22).x_prop 
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VJournal, ikal::Error> { Ok(ikal::VJournal { dtstamp: (h.s(0)).parse::<ikal::DateTime>()?, uid: ikal::Text { params: Default::default(), text: (h.s(1)).to_string() }, class: Some(ikal::Class::Public), created: Some((h.s(2)).parse::<ikal::DateTime>()?), dtstart: (h.s(3)).parse::<ikal::Date>()?, last_modified: Some((h.s(4)).parse::<ikal::DateTime>()?), organizer: Some(ikal::Uri { params: Default::default(), uri: (h.s(5)).to_string() }), recurid: Some((h.s(6)).parse::<ikal::Date>()?), sequence: Some(h.u32(7)), status: Some(ikal::Status::Tentative), summary: Some(ikal::Text { params: Default::default(), text: (h.s(8)).to_string() }), url: Some(ikal::Uri { params: Default::default(), uri: (h.s(9)).to_string() }), rrule: Some((h.s(10)).parse::<ikal::Recur>()?), attach: vec![ikal::Text { params: Default::default(), text: (h.s(11)).to_string() }], attendee: vec![ikal::Uri { params: Default::default(), uri: (h.s(12)).to_string() }], categories: vec![ikal::Text { params: Default::default(), text: (h.s(13)).to_string() }], comment: vec![ikal::Text { params: Default::default(), text: (h.s(14)).to_string() }], contact: vec![ikal::Text { params: Default::default(), text: (h.s(15)).to_string() }], exdate: vec![(h.s(16)).parse::<ikal::Date>()?], related_to: vec![ikal::Text { params: Default::default(), text: (h.s(17)).to_string() }], rdate: vec![(h.s(18)).parse::<ikal::RDate>()?], rstatus: vec![(h.s(19)).parse::<ikal::RequestStatus>()?], description: vec![ikal::Text { params: Default::default(), text: (h.s(20)).to_string() }], x_prop: h.todo(21).x_prop, iana_prop: h.todo(22).x_prop, ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_29(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::vjournal! {
        dtstamp: h.s(0),
        uid: h.string(1),
        class: Private 
        created: h.s(2),
        dtstart: h.s(3) 
        last_modified: h.s(4),
        organizer: h.string(5) 
        recurid: h.s(6),
        sequence: h.u32(7),
        status: Confirmed 
        summary: h.string(8),
        url: h.string(9),
        rrule: {
            count: Some(h.u8(10)),
            by_setpos: [-1, h.i8(11), h.i8(12), h.i8(13),],
            by_monthday: [h.i8(14),],
            interval: h.u8(15),
            wkst: Some(h.weekday(16).weekday),
            freq: Yearly,
            by_day: [h.weekday(17), h.weekday(18), h.weekday(19), h.weekday(20),],
            by_weekno: [h.i8(21)],
            by_second: [h.u8(22) as i8, -5, 1 + 2,],
            by_minute: [],
            by_yearday: [h.u8(23) as i8, h.u8(24) as i8, -5, -1],
            by_hour: [-1, -5, h.i8(25), h.i8(26), h.i8(27), h.i8(28),],
            by_month: [h.i8(29)],
            until: h.parsed::<ikal::Date>(30),
        },
        attach: [h.string(31)] 
        attendee: [h.string(32)] 
        categories: [h.string(33)],
        comment: [h.string(34)],
        contact: [h.string(35)],
        exdate: [h.s(36)],
        related_to: [h.string(37)],
        rdate: [h.s(38)] 
        rstatus: [{
            extdata: format!("{}, {}", h.s(39), 1),
        }] 
        description: [h.string(40)],
        x_prop: h.todo(41).x_prop,
        iana_prop: h.todo(42).x_prop,
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VJournal, ikal::Error> { Ok(ikal::VJournal { dtstamp: (h.s(0)).parse::<ikal::DateTime>()?, uid: ikal::Text { params: Default::default(), text: (h.string(1)).to_string() }, class: Some(ikal::Class::Private), created: Some((h.s(2)).parse::<ikal::DateTime>()?), dtstart: (h.s(3)).parse::<ikal::Date>()?, last_modified: Some((h.s(4)).parse::<ikal::DateTime>()?), organizer: Some(ikal::Uri { params: Default::default(), uri: (h.string(5)).to_string() }), recurid: Some((h.s(6)).parse::<ikal::Date>()?), sequence: Some(h.u32(7)), status: Some(ikal::Status::Confirmed), summary: Some(ikal::Text { params: Default::default(), text: (h.string(8)).to_string() }), url: Some(ikal::Uri { params: Default::default(), uri: (h.string(9)).to_string() }), rrule: Some(ikal::Recur { count: Some(h.u8(10)), by_setpos: vec![-1, h.i8(11), h.i8(12), h.i8(13)], by_monthday: vec![h.i8(14)], interval: h.u8(15), wkst: Some(h.weekday(16).weekday), freq: ikal::Freq::Yearly, by_day: vec![h.weekday(17), h.weekday(18), h.weekday(19), h.weekday(20)], by_weekno: vec![h.i8(21)], by_second: vec![h.u8(22) as i8, -5, 1 + 2], by_minute: vec![], by_yearday: vec![h.u8(23) as i8, h.u8(24) as i8, -5, -1], by_hour: vec![-1, -5, h.i8(25), h.i8(26), h.i8(27), h.i8(28)], by_month: vec![h.i8(29)], until: Some(h.parsed::<ikal::Date>(30)), ..Default::default() }), attach: vec![ikal::Text { params: Default::default(), text: (h.string(31)).to_string() }], attendee: vec![ikal::Uri { params: Default::default(), uri: (h.string(32)).to_string() }], categories: vec![ikal::Text { params: Default::default(), text: (h.string(33)).to_string() }], comment: vec![ikal::Text { params: Default::default(), text: (h.string(34)).to_string() }], contact: vec![ikal::Text { params: Default::default(), text: (h.string(35)).to_string() }], exdate: vec![(h.s(36)).parse::<ikal::Date>()?], related_to: vec![ikal::Text { params: Default::default(), text: (h.string(37)).to_string() }], rdate: vec![(h.s(38)).parse::<ikal::RDate>()?], rstatus: vec![ikal::RequestStatus { extdata: Some((format!("{}, {}", h.s(39), 1)).to_string()), ..Default::default() }], description: vec![ikal::Text { params: Default::default(), text: (h.string(40)).to_string() }], x_prop: h.todo(41).x_prop, iana_prop: h.todo(42).x_prop, ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_30(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::vjournal! {
        dtstamp: h.string(0),
        uid: format!("{}, {}", h.s(1), 1),
        class: Confidential,
        created: h.string(2),
        dtstart: &h.string(3),
        last_modified: h.string(4),
        organizer: format!("{}, {}", h.s(5), 1),
        recurid: h.string(6),
        sequence: h.u8(7) as u32,
        status: Cancelled,
        summary: format!("{}, {}", h.s(8), 1),
        url: format!("{}, {}", h.s(9), 1) 
        rrule: h.string(10),
        attach: [format!("{}, {}", h.s(11), 1), h.params::<ikal::Text>(12), h.params::<ikal::Text>(13)],
        attendee: [format!("{}, {}", h.s(14), 1), format!("{}, {}", h.s(15), 1), h.params::<ikal::Uri>(16), h.params::<ikal::Uri>(17)],
        categories: [format!("{}, {}", h.s(18), 1), h.params::<ikal::Text>(19)],
        comment: [format!("{}, {}", h.s(20), 1), format!("{}, {}", h.s(21), 1), h.params::<ikal::Text>(22)],
        contact: [format!("{}, {}", h.s(23), 1), h.params::<ikal::Text>(24), h.params::<ikal::Text>(25)],
        exdate: [h.string(26), &h.string(27), h.s(28)] 
        related_to: [format!("{}, {}", h.s(29), 1), h.params::<ikal::Text>(30)],
        rdate: [&h.string(31), h.s(32), h.s(33)] 
        rstatus: [h.string(34), &h.string(35), {
            statcode: h.f32(36) 
        }],
        description: [format!("{}, {}", h.s(37), 1), format!("{}, {}", h.s(38), 1), h.params::<ikal::Text>(39), h.params::<ikal::Text>(40)],
        x_prop: h.todo(41).x_prop 
        iana_prop: h.todo(42).x_prop,
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VJournal, ikal::Error> { Ok(ikal::VJournal { dtstamp: (h.string(0)).parse::<ikal::DateTime>()?, uid: ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(1), 1)).to_string() }, class: Some(ikal::Class::Confidential), created: Some((h.string(2)).parse::<ikal::DateTime>()?), dtstart: (h.string(3)).parse::<ikal::Date>()?, last_modified: Some((h.string(4)).parse::<ikal::DateTime>()?), organizer: Some(ikal::Uri { params: Default::default(), uri: (format!("{}, {}", h.s(5), 1)).to_string() }), recurid: Some((h.string(6)).parse::<ikal::Date>()?), sequence: Some(h.u8(7) as u32), status: Some(ikal::Status::Cancelled), summary: Some(ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(8), 1)).to_string() }), url: Some(ikal::Uri { params: Default::default(), uri: (format!("{}, {}", h.s(9), 1)).to_string() }), rrule: Some((h.string(10)).parse::<ikal::Recur>()?), attach: vec![ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(11), 1)).to_string() }, h.params::<ikal::Text>(12), h.params::<ikal::Text>(13)], attendee: vec![ikal::Uri { params: Default::default(), uri: (format!("{}, {}", h.s(14), 1)).to_string() }, ikal::Uri { params: Default::default(), uri: (format!("{}, {}", h.s(15), 1)).to_string() }, h.params::<ikal::Uri>(16), h.params::<ikal::Uri>(17)], categories: vec![ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(18), 1)).to_string() }, h.params::<ikal::Text>(19)], comment: vec![ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(20), 1)).to_string() }, ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(21), 1)).to_string() }, h.params::<ikal::Text>(22)], contact: vec![ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(23), 1)).to_string() }, h.params::<ikal::Text>(24), h.params::<ikal::Text>(25)], exdate: vec![(h.string(26)).parse::<ikal::Date>()?, (h.string(27)).parse::<ikal::Date>()?, (h.s(28)).parse::<ikal::Date>()?], related_to: vec![ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(29), 1)).to_string() }, h.params::<ikal::Text>(30)], rdate: vec![(h.string(31)).parse::<ikal::RDate>()?, (h.s(32)).parse::<ikal::RDate>()?, (h.s(33)).parse::<ikal::RDate>()?], rstatus: vec![(h.string(34)).parse::<ikal::RequestStatus>()?, (h.string(35)).parse::<ikal::RequestStatus>()?, ikal::RequestStatus { statcode: h.f32(36), ..Default::default() }], description: vec![ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(37), 1)).to_string() }, ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(38), 1)).to_string() }, h.params::<ikal::Text>(39), h.params::<ikal::Text>(40)], x_prop: h.todo(41).x_prop, iana_prop: h.todo(42).x_prop, ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_31(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::vjournal! {
        dtstamp: h.s(0),
        uid: h.params::<ikal::Text>(1),
        class: Custom(h.string(2)),
        created: h.s(3),
        dtstart: h.s(4),
        last_modified: h.s(5),
        organizer: h.params::<ikal::Uri>(6),
        recurid: h.s(7) 
        sequence: 1 + 2,
        status: NeedsAction,
        summary: h.params::<ikal::Text>(8),
        url: h.params::<ikal::Uri>(9),
        rrule: {
            by_minute: [h.u8(10) as i8, 7, 1 + 2],
            by_month: [h.i8(11)],
            by_setpos: [h.i8(12),],
        },
        attach: [h.params::<ikal::Text>(13), h.params::<ikal::Text>(14), "a, b; c", h.string(15), h.string(16),],
        attendee: [h.params::<ikal::Uri>(17), "a, b; c", "a, b; c", h.string(18), h.string(19),],
        categories: [h.params::<ikal::Text>(20), h.params::<ikal::Text>(21), "a, b; c", "a, b; c", h.string(22),],
        comment: [h.params::<ikal::Text>(23), h.params::<ikal::Text>(24), "a, b; c", "a, b; c", h.string(25),] 
        contact: [h.params::<ikal::Text>(26), "a, b; c", h.string(27), h.string(28),] 
        exdate: [h.s(29), "20240331T023000", "20240229", h.s(30), h.s(31),],
        related_to: [h.params::<ikal::Text>(32), h.params::<ikal::Text>(33), "a, b; c", "a, b; c", h.string(34),] 
        rdate: [h.s(35), h.s(36), "20240229", h.s(37),],
        rstatus: [{
            statdesc: "a, b; c" 
        }, "2.0;Success", {
            statdesc: format!("{}, {}", h.s(38), 1),
            statcode: h.f32(39),
            extdata: format!("{}, {}", h.s(40), 1),
        }, {
            statdesc: h.s(41),
            statcode: -0.25,
            extdata: format!("{}, {}", h.s(42), 1) 
        },],
        description: [h.params::<ikal::Text>(43), "a, b; c", "a, b; c", h.string(44),],
        x_prop: h.todo(45).x_prop,
        iana_prop: h.todo(46).x_prop,
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VJournal, ikal::Error> { Ok(ikal::VJournal { dtstamp: (h.s(0)).parse::<ikal::DateTime>()?, uid: h.params::<ikal::Text>(1), class: Some(ikal::Class::Custom(h.string(2))), created: Some((h.s(3)).parse::<ikal::DateTime>()?), dtstart: (h.s(4)).parse::<ikal::Date>()?, last_modified: Some((h.s(5)).parse::<ikal::DateTime>()?), organizer: Some(h.params::<ikal::Uri>(6)), recurid: Some((h.s(7)).parse::<ikal::Date>()?), sequence: Some(1 + 2), status: Some(ikal::Status::NeedsAction), summary: Some(h.params::<ikal::Text>(8)), url: Some(h.params::<ikal::Uri>(9)), rrule: Some(ikal::Recur { by_minute: vec![h.u8(10) as i8, 7, 1 + 2], by_month: vec![h.i8(11)], by_setpos: vec![h.i8(12)], ..Default::default() }), attach: vec![h.params::<ikal::Text>(13), h.params::<ikal::Text>(14), ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }, ikal::Text { params: Default::default(), text: (h.string(15)).to_string() }, ikal::Text { params: Default::default(), text: (h.string(16)).to_string() }], attendee: vec![h.params::<ikal::Uri>(17), ikal::Uri { params: Default::default(), uri: ("a, b; c").to_string() }, ikal::Uri { params: Default::default(), uri: ("a, b; c").to_string() }, ikal::Uri { params: Default::default(), uri: (h.string(18)).to_string() }, ikal::Uri { params: Default::default(), uri: (h.string(19)).to_string() }], categories: vec![h.params::<ikal::Text>(20), h.params::<ikal::Text>(21), ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }, ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }, ikal::Text { params: Default::default(), text: (h.string(22)).to_string() }], comment: vec![h.params::<ikal::Text>(23), h.params::<ikal::Text>(24), ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }, ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }, ikal::Text { params: Default::default(), text: (h.string(25)).to_string() }], contact: vec![h.params::<ikal::Text>(26), ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }, ikal::Text { params: Default::default(), text: (h.string(27)).to_string() }, ikal::Text { params: Default::default(), text: (h.string(28)).to_string() }], exdate: vec![(h.s(29)).parse::<ikal::Date>()?, ("20240331T023000").parse::<ikal::Date>()?, ("20240229").parse::<ikal::Date>()?, (h.s(30)).parse::<ikal::Date>()?, (h.s(31)).parse::<ikal::Date>()?], related_to: vec![h.params::<ikal::Text>(32), h.params::<ikal::Text>(33), ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }, ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }, ikal::Text { params: Default::default(), text: (h.string(34)).to_string() }], rdate: vec![(h.s(35)).parse::<ikal::RDate>()?, (h.s(36)).parse::<ikal::RDate>()?, ("20240229").parse::<ikal::RDate>()?, (h.s(37)).parse::<ikal::RDate>()?], rstatus: vec![ikal::RequestStatus { statdesc: ("a, b; c").to_string(), ..Default::default() }, ("2.0;Success").parse::<ikal::RequestStatus>()?, ikal::RequestStatus { statdesc: (format!("{}, {}", h.s(38), 1)).to_string(), statcode: h.f32(39), extdata: Some((format!("{}, {}", h.s(40), 1)).to_string()), ..Default::default() }, ikal::RequestStatus { statdesc: (h.s(41)).to_string(), statcode: -0.25, extdata: Some((format!("{}, {}", h.s(42), 1)).to_string()), ..Default::default() }], description: vec![h.params::<ikal::Text>(43), ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }, ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }, ikal::Text { params: Default::default(), text: (h.string(44)).to_string() }], x_prop: h.todo(45).x_prop, iana_prop: h.todo(46).x_prop, ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_32(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::vjournal! {
        dtstamp: "20240331T023000" 
        uid: "a, b; c",
        class: Public,
        created: "20240331",
        dtstart: "20240331T023000" 
        last_modified: "20240331T023000",
        organizer: "a, b; c",
        recurid: "20240229T",
        sequence: h.u32(0),
        status: Completed 
        summary: "a, b; c" 
        url: "a, b; c",
        rrule: "FREQ=WEEKLY;INTERVAL=2",
        attach: [],
        attendee: [] 
        categories: [],
        comment: [],
        contact: [] 
        exdate: [],
        related_to: [],
        rdate: [],
        rstatus: [],
        description: [],
        x_prop: h.todo(1).x_prop,
        iana_prop: h.todo(2).x_prop,
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VJournal, ikal::Error> { Ok(ikal::VJournal { dtstamp: ("20240331T023000").parse::<ikal::DateTime>()?, uid: ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }, class: Some(ikal::Class::Public), created: Some(("20240331").parse::<ikal::DateTime>()?), dtstart: ("20240331T023000").parse::<ikal::Date>()?, last_modified: Some(("20240331T023000").parse::<ikal::DateTime>()?), organizer: Some(ikal::Uri { params: Default::default(), uri: ("a, b; c").to_string() }), recurid: Some(("20240229T").parse::<ikal::Date>()?), sequence: Some(h.u32(0)), status: Some(ikal::Status::Completed), summary: Some(ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }), url: Some(ikal::Uri { params: Default::default(), uri: ("a, b; c").to_string() }), rrule: Some(("FREQ=WEEKLY;INTERVAL=2").parse::<ikal::Recur>()?), attach: vec![], attendee: vec![], categories: vec![], comment: vec![], contact: vec![], exdate: vec![], related_to: vec![], rdate: vec![], rstatus: vec![], description: vec![], x_prop: h.todo(1).x_prop, iana_prop: h.todo(2).x_prop, ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_33(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::vjournal! {
        dtstamp: h.s(0),
        uid: h.string(1),
        class: Private,
        created: h.s(2) 
        dtstart: h.s(3),
        last_modified: h.s(4) 
        organizer: h.string(5),
        recurid: h.s(6),
        sequence: h.u32(7),
        status: InProcess,
        summary: h.string(8),
        url: h.string(9),
        rrule: {
            freq: Daily,
            by_minute: [h.i8(10)],
            by_yearday: [] 
        },
        attach: [h.string(11)],
        attendee: [h.string(12)],
        categories: [h.string(13)],
        comment: [h.string(14)],
        contact: [h.string(15)] 
        exdate: [h.s(16)],
        related_to: [h.string(17)],
        rdate: [h.s(18)],
        rstatus: [{
            statcode: 1.5,
            extdata: "a, b; c",
            statdesc: h.string(19),
        }],
        description: [h.string(20)],
        x_prop: h.todo(21).x_prop,
        iana_prop: h.todo(22).x_prop,
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VJournal, ikal::Error> { Ok(ikal::VJournal { dtstamp: (h.s(0)).parse::<ikal::DateTime>()?, uid: ikal::Text { params: Default::default(), text: (h.string(1)).to_string() }, class: Some(ikal::Class::Private), created: Some((h.s(2)).parse::<ikal::DateTime>()?), dtstart: (h.s(3)).parse::<ikal::Date>()?, last_modified: Some((h.s(4)).parse::<ikal::DateTime>()?), organizer: Some(ikal::Uri { params: Default::default(), uri: (h.string(5)).to_string() }), recurid: Some((h.s(6)).parse::<ikal::Date>()?), sequence: Some(h.u32(7)), status: Some(ikal::Status::InProcess), summary: Some(ikal::Text { params: Default::default(), text: (h.string(8)).to_string() }), url: Some(ikal::Uri { params: Default::default(), uri: (h.string(9)).to_string() }), rrule: Some(ikal::Recur { freq: ikal::Freq::Daily, by_minute: vec![h.i8(10)], by_yearday: vec![], ..Default::default() }), attach: vec![ikal::Text { params: Default::default(), text: (h.string(11)).to_string() }], attendee: vec![ikal::Uri { params: Default::default(), uri: (h.string(12)).to_string() }], categories: vec![ikal::Text { params: Default::default(), text: (h.string(13)).to_string() }], comment: vec![ikal::Text { params: Default::default(), text: (h.string(14)).to_string() }], contact: vec![ikal::Text { params: Default::default(), text: (h.string(15)).to_string() }], exdate: vec![(h.s(16)).parse::<ikal::Date>()?], related_to: vec![ikal::Text { params: Default::default(), text: (h.string(17)).to_string() }], rdate: vec![(h.s(18)).parse::<ikal::RDate>()?], rstatus: vec![ikal::RequestStatus { statcode: 1.5, extdata: Some(("a, b; c").to_string()), statdesc: (h.string(19)).to_string(), ..Default::default() }], description: vec![ikal::Text { params: Default::default(), text: (h.string(20)).to_string() }], x_prop: h.todo(21).x_prop, iana_prop: h.todo(22).x_prop, ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_34(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::vjournal! {
        dtstamp: h.s(0),
        uid: format!("{}, {}", h.s(1), 1),
        class: Confidential,
        created: h.s(2),
        dtstart: h.s(3),
        last_modified: h.s(4),
        organizer: format!("{}, {}", h.s(5), 1),
        recurid: h.s(6),
        sequence: h.u8(7) as u32 
        status: Draft,
        summary: format!("{}, {}", h.s(8), 1),
        url: format!("{}, {}", h.s(9), 1),
        rrule: h.s(10),
        attach: [format!("{}, {}", h.s(11), 1), h.params::<ikal::Text>(12), h.params::<ikal::Text>(13),],
        attendee: [format!("{}, {}", h.s(14), 1), h.params::<ikal::Uri>(15),],
        categories: [format!("{}, {}", h.s(16), 1), h.params::<ikal::Text>(17),],
        comment: [format!("{}, {}", h.s(18), 1), h.params::<ikal::Text>(19), h.params::<ikal::Text>(20),],
        contact: [format!("{}, {}", h.s(21), 1), h.params::<ikal::Text>(22), h.params::<ikal::Text>(23),],
        exdate: [h.s(24), &h.string(25), h.string(26),],
        related_to: [format!("{}, {}", h.s(27), 1), h.params::<ikal::Text>(28),],
        rdate: [h.s(29), h.string(30), &h.string(31),] 
        rstatus: [h.s(32), {
            extdata: h.s(33),
            statdesc: h.string(34),
        },],
        description: [format!("{}, {}", h.s(35), 1), format!("{}, {}", h.s(36), 1), h.params::<ikal::Text>(37),],
        x_prop: h.todo(38).x_prop,
        iana_prop: h.todo(39).x_prop,
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VJournal, ikal::Error> { Ok(ikal::VJournal { dtstamp: (h.s(0)).parse::<ikal::DateTime>()?, uid: ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(1), 1)).to_string() }, class: Some(ikal::Class::Confidential), created: Some((h.s(2)).parse::<ikal::DateTime>()?), dtstart: (h.s(3)).parse::<ikal::Date>()?, last_modified: Some((h.s(4)).parse::<ikal::DateTime>()?), organizer: Some(ikal::Uri { params: Default::default(), uri: (format!("{}, {}", h.s(5), 1)).to_string() }), recurid: Some((h.s(6)).parse::<ikal::Date>()?), sequence: Some(h.u8(7) as u32), status: Some(ikal::Status::Draft), summary: Some(ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(8), 1)).to_string() }), url: Some(ikal::Uri { params: Default::default(), uri: (format!("{}, {}", h.s(9), 1)).to_string() }), rrule: Some((h.s(10)).parse::<ikal::Recur>()?), attach: vec![ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(11), 1)).to_string() }, h.params::<ikal::Text>(12), h.params::<ikal::Text>(13)], attendee: vec![ikal::Uri { params: Default::default(), uri: (format!("{}, {}", h.s(14), 1)).to_string() }, h.params::<ikal::Uri>(15)], categories: vec![ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(16), 1)).to_string() }, h.params::<ikal::Text>(17)], comment: vec![ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(18), 1)).to_string() }, h.params::<ikal::Text>(19), h.params::<ikal::Text>(20)], contact: vec![ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(21), 1)).to_string() }, h.params::<ikal::Text>(22), h.params::<ikal::Text>(23)], exdate: vec![(h.s(24)).parse::<ikal::Date>()?, (h.string(25)).parse::<ikal::Date>()?, (h.string(26)).parse::<ikal::Date>()?], related_to: vec![ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(27), 1)).to_string() }, h.params::<ikal::Text>(28)], rdate: vec![(h.s(29)).parse::<ikal::RDate>()?, (h.string(30)).parse::<ikal::RDate>()?, (h.string(31)).parse::<ikal::RDate>()?], rstatus: vec![(h.s(32)).parse::<ikal::RequestStatus>()?, ikal::RequestStatus { extdata: Some((h.s(33)).to_string()), statdesc: (h.string(34)).to_string(), ..Default::default() }], description: vec![ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(35), 1)).to_string() }, ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(36), 1)).to_string() }, h.params::<ikal::Text>(37)], x_prop: h.todo(38).x_prop, iana_prop: h.todo(39).x_prop, ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_35(h: &Holes) -> Outcome {
    let dtstamp_: ikal::DateTime = h.parsed::<ikal::DateTime>(0);
    let dtstamp = dtstamp_.clone();
    let uid_: ikal::Text = h.params::<ikal::Text>(1);
    let uid = uid_.clone();
    let class_: Option<ikal::Class> = Some(ikal::Class::Public);
    let class = class_.clone();
    let created_: Option<ikal::DateTime> = Some(h.parsed::<ikal::DateTime>(2));
    let created = created_.clone();
    let dtstart_: ikal::Date = h.parsed::<ikal::Date>(3);
    let dtstart = dtstart_.clone();
    let last_modified_: Option<ikal::DateTime> = Some(h.parsed::<ikal::DateTime>(4));
    let last_modified = last_modified_.clone();
    let organizer_: Option<ikal::Uri> = Some(h.params::<ikal::Uri>(5));
    let organizer = organizer_.clone();
    let recurid_: Option<ikal::Date> = Some(h.parsed::<ikal::Date>(6));
    let recurid = recurid_.clone();
    let sequence_: Option<u32> = Some(h.u32(7));
    let sequence = sequence_.clone();
    let status_: Option<ikal::Status> = Some(ikal::Status::Tentative);
    let status = status_.clone();
    let summary_: Option<ikal::Text> = Some(h.params::<ikal::Text>(8));
    let summary = summary_.clone();
    let url_: Option<ikal::Uri> = Some(h.params::<ikal::Uri>(9));
    let url = url_.clone();
    let rrule_: Option<ikal::Recur> = None;
    let rrule = rrule_.clone();
    let attach_: Vec<ikal::Text> = vec![h.params::<ikal::Text>(11), h.params::<ikal::Text>(12), h.params::<ikal::Text>(13)];
    let attach = attach_.clone();
    let attendee_: Vec<ikal::Uri> = vec![h.params::<ikal::Uri>(14), h.params::<ikal::Uri>(15), h.params::<ikal::Uri>(16)];
    let attendee = attendee_.clone();
    let categories_: Vec<ikal::Text> = vec![h.params::<ikal::Text>(17), h.params::<ikal::Text>(18)];
    let categories = categories_.clone();
    let comment_: Vec<ikal::Text> = vec![h.params::<ikal::Text>(19)];
    let comment = comment_.clone();
    let contact_: Vec<ikal::Text> = vec![h.params::<ikal::Text>(20), h.params::<ikal::Text>(21), h.params::<ikal::Text>(22)];
    let contact = contact_.clone();
    let exdate_: Vec<ikal::Date> = vec![h.parsed::<ikal::Date>(23), h.parsed::<ikal::Date>(24), h.parsed::<ikal::Date>(25)];
    let exdate = exdate_.clone();
    let related_to_: Vec<ikal::Text> = vec![h.params::<ikal::Text>(26), h.params::<ikal::Text>(27), h.params::<ikal::Text>(28)];
    let related_to = related_to_.clone();
    let rdate_: Vec<ikal::RDate> = vec![h.parsed::<ikal::RDate>(29), h.parsed::<ikal::RDate>(30)];
    let rdate = rdate_.clone();
    let rstatus_: Vec<ikal::RequestStatus> = vec![h.parsed::<ikal::RequestStatus>(31), h.parsed::<ikal::RequestStatus>(32), h.parsed::<ikal::RequestStatus>(33)];
    let rstatus = rstatus_.clone();
    let description_: Vec<ikal::Text> = vec![h.params::<ikal::Text>(34)];
    let description = description_.clone();
    let x_prop_: std::collections::BTreeMap<String, _> = h.todo(35).x_prop;
    let x_prop = x_prop_.clone();
    let iana_prop_: std::collections::BTreeMap<String, _> = h.todo(36).x_prop;
    let iana_prop = iana_prop_.clone();
    h.begin();
    let built = ikal::vjournal! {
        dtstamp,
        uid,
        class,
        created,
        dtstart,
        last_modified,
        organizer,
        recurid,
        sequence,
        status,
        summary,
        url,
        rrule,
        attach,
        attendee,
        categories,
        comment,
        contact,
        exdate,
        related_to,
        rdate,
        rstatus,
        description,
        x_prop,
        iana_prop,
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VJournal, ikal::Error> { Ok(ikal::VJournal { dtstamp: dtstamp_, uid: uid_, class: class_, created: created_, dtstart: dtstart_, last_modified: last_modified_, organizer: organizer_, recurid: recurid_, sequence: sequence_, status: status_, summary: summary_, url: url_, rrule: rrule_, attach: attach_, attendee: attendee_, categories: categories_, comment: comment_, contact: contact_, exdate: exdate_, related_to: related_to_, rdate: rdate_, rstatus: rstatus_, description: description_, x_prop: x_prop_, iana_prop: iana_prop_, ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_36(h: &Holes) -> Outcome {
    let description_: Vec<ikal::Text> = vec![h.params::<ikal::Text>(1)];
    let description = description_.clone();
    h.begin();
    let built = ikal::vjournal! {
        rdate: [h.s(0),],
        description,
        summary: "a, b; c",
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VJournal, ikal::Error> { Ok(ikal::VJournal { rdate: vec![(h.s(0)).parse::<ikal::RDate>()?], description: description_, summary: Some(ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }), ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_37(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::vjournal! {
        comment: [],
        iana_prop: h.todo(0).x_prop 
        status: InProcess,
        organizer: format!("{}, {}", h.s(1), 1),
        categories: [format!("{}, {}", h.s(2), 1), format!("{}, {}", h.s(3), 1), h.params::<ikal::Text>(4),],
        uid: format!("{}, {}", h.s(5), 1) 
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VJournal, ikal::Error> { Ok(ikal::VJournal { comment: vec![], iana_prop: h.todo(0).x_prop, status: Some(ikal::Status::InProcess), organizer: Some(ikal::Uri { params: Default::default(), uri: (format!("{}, {}", h.s(1), 1)).to_string() }), categories: vec![ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(2), 1)).to_string() }, ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(3), 1)).to_string() }, h.params::<ikal::Text>(4)], uid: ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(5), 1)).to_string() }, ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_38(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::vjournal! {
        status: Confirmed,
        rstatus: [{
            extdata: h.s(0),
            statdesc: h.s(1),
            statcode: h.f32(2),
        }],
        rrule: "FREQ=NEVER",
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VJournal, ikal::Error> { Ok(ikal::VJournal { status: Some(ikal::Status::Confirmed), rstatus: vec![ikal::RequestStatus { extdata: Some((h.s(0)).to_string()), statdesc: (h.s(1)).to_string(), statcode: h.f32(2), ..Default::default() }], rrule: Some(("FREQ=NEVER").parse::<ikal::Recur>()?), ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_39(h: &Holes) -> Outcome {
    let description_: Vec<ikal::Text> = vec![h.params::<ikal::Text>(0)];
    let description = description_.clone();
    let last_modified_: Option<ikal::DateTime> = None;
    let last_modified = last_modified_.clone();
    let summary_: Option<ikal::Text> = None;
    let summary = summary_.clone();
    h.begin();
    let built = ikal::vjournal! {
        categories: [],
        sequence: 1 + 2,
        description,
        x_prop: h.todo(1).x_prop,
        exdate: [h.s(2)],
        last_modified,
        related_to: [h.params::<ikal::Text>(4), h.params::<ikal::Text>(5), "a, b; c", "a, b; c", h.string(6),],
        summary,
        rstatus: [h.s(8),],
        status: Completed,
        dtstart: "",
        iana_prop: h.todo(9).x_prop 
        url: format!("{}, {}", h.s(10), 1),
        dtstamp: h.s(11),
        rdate: [h.string(12), &h.string(13), h.s(14)],
        contact: [format!("{}, {}", h.s(15), 1), format!("{}, {}", h.s(16), 1), h.params::<ikal::Text>(17), h.params::<ikal::Text>(18)],
        organizer: h.string(19),
        attendee: [format!("{}, {}", h.s(20), 1), format!("{}, {}", h.s(21), 1), h.params::<ikal::Uri>(22), h.params::<ikal::Uri>(23),],
        attach: [format!("{}, {}", h.s(24), 1), format!("{}, {}", h.s(25), 1), h.params::<ikal::Text>(26), h.params::<ikal::Text>(27),],
        comment: [h.params::<ikal::Text>(28), "a, b; c", h.string(29),],
        uid: h.string(30),
        recurid: h.s(31),
        class: Custom(h.string(32)),
        created: h.s(33) 
        rrule: h.string(34),
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VJournal, ikal::Error> { Ok(ikal::VJournal { categories: vec![], sequence: Some(1 + 2), description: description_, x_prop: h.todo(1).x_prop, exdate: vec![(h.s(2)).parse::<ikal::Date>()?], last_modified: last_modified_, related_to: vec![h.params::<ikal::Text>(4), h.params::<ikal::Text>(5), ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }, ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }, ikal::Text { params: Default::default(), text: (h.string(6)).to_string() }], summary: summary_, rstatus: vec![(h.s(8)).parse::<ikal::RequestStatus>()?], status: Some(ikal::Status::Completed), dtstart: ("").parse::<ikal::Date>()?, iana_prop: h.todo(9).x_prop, url: Some(ikal::Uri { params: Default::default(), uri: (format!("{}, {}", h.s(10), 1)).to_string() }), dtstamp: (h.s(11)).parse::<ikal::DateTime>()?, rdate: vec![(h.string(12)).parse::<ikal::RDate>()?, (h.string(13)).parse::<ikal::RDate>()?, (h.s(14)).parse::<ikal::RDate>()?], contact: vec![ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(15), 1)).to_string() }, ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(16), 1)).to_string() }, h.params::<ikal::Text>(17), h.params::<ikal::Text>(18)], organizer: Some(ikal::Uri { params: Default::default(), uri: (h.string(19)).to_string() }), attendee: vec![ikal::Uri { params: Default::default(), uri: (format!("{}, {}", h.s(20), 1)).to_string() }, ikal::Uri { params: Default::default(), uri: (format!("{}, {}", h.s(21), 1)).to_string() }, h.params::<ikal::Uri>(22), h.params::<ikal::Uri>(23)], attach: vec![ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(24), 1)).to_string() }, ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(25), 1)).to_string() }, h.params::<ikal::Text>(26), h.params::<ikal::Text>(27)], comment: vec![h.params::<ikal::Text>(28), ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }, ikal::Text { params: Default::default(), text: (h.string(29)).to_string() }], uid: ikal::Text { params: Default::default(), text: (h.string(30)).to_string() }, recurid: Some((h.s(31)).parse::<ikal::Date>()?), class: Some(ikal::Class::Custom(h.string(32))), created: Some((h.s(33)).parse::<ikal::DateTime>()?), rrule: Some((h.string(34)).parse::<ikal::Recur>()?), ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_40(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::vjournal! {
        x_prop: h.todo(0).x_prop,
        rrule: "FREQ=WEEKLY;INTERVAL=2",
        attach: [h.params::<ikal::Text>(1), "a, b; c", "a, b; c", h.string(2), h.string(3),],
        status: Tentative,
        summary: format!("{}, {}", h.s(4), 1),
        sequence: h.u32(5) 
        contact: [format!("{}, {}", h.s(6), 1), h.params::<ikal::Text>(7)],
        last_modified: h.s(8),
        categories: [format!("{}, {}", h.s(9), 1), format!("{}, {}", h.s(10), 1), h.params::<ikal::Text>(11), h.params::<ikal::Text>(12),],
        created: &h.string(13) 
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VJournal, ikal::Error> { Ok(ikal::VJournal { x_prop: h.todo(0).x_prop, rrule: Some(("FREQ=WEEKLY;INTERVAL=2").parse::<ikal::Recur>()?), attach: vec![h.params::<ikal::Text>(1), ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }, ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }, ikal::Text { params: Default::default(), text: (h.string(2)).to_string() }, ikal::Text { params: Default::default(), text: (h.string(3)).to_string() }], status: Some(ikal::Status::Tentative), summary: Some(ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(4), 1)).to_string() }), sequence: Some(h.u32(5)), contact: vec![ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(6), 1)).to_string() }, h.params::<ikal::Text>(7)], last_modified: Some((h.s(8)).parse::<ikal::DateTime>()?), categories: vec![ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(9), 1)).to_string() }, ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(10), 1)).to_string() }, h.params::<ikal::Text>(11), h.params::<ikal::Text>(12)], created: Some((h.string(13)).parse::<ikal::DateTime>()?), ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_41(h: &Holes) -> Outcome {
    let created_: Option<ikal::DateTime> = Some(h.parsed::<ikal::DateTime>(6));
    let created = created_.clone();
    let exdate_: Vec<ikal::Date> = vec![h.parsed::<ikal::Date>(11), h.parsed::<ikal::Date>(12)];
    let exdate = exdate_.clone();
    let summary_: Option<ikal::Text> = Some(h.params::<ikal::Text>(14));
    let summary = summary_.clone();
    h.begin();
    let built = ikal::vjournal! {
        iana_prop: h.todo(0).x_prop,
        attach: [],
        rstatus: [h.s(1), h.s(2), {
            statdesc: format!("{}, {}", h.s(3), 1) 
            extdata: h.string(4),
            statcode: h.f32(5),
        },] 
        created,
        dtstamp: h.s(7),
        categories: [format!("{}, {}", h.s(8), 1), format!("{}, {}", h.s(9), 1), h.params::<ikal::Text>(10),],
        exdate,
        related_to: [h.s(13),],
        rrule: "FREQ=NEVER",
        summary,
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VJournal, ikal::Error> { Ok(ikal::VJournal { iana_prop: h.todo(0).x_prop, attach: vec![], rstatus: vec![(h.s(1)).parse::<ikal::RequestStatus>()?, (h.s(2)).parse::<ikal::RequestStatus>()?, ikal::RequestStatus { statdesc: (format!("{}, {}", h.s(3), 1)).to_string(), extdata: Some((h.string(4)).to_string()), statcode: h.f32(5), ..Default::default() }], created: created_, dtstamp: (h.s(7)).parse::<ikal::DateTime>()?, categories: vec![ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(8), 1)).to_string() }, ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(9), 1)).to_string() }, h.params::<ikal::Text>(10)], exdate: exdate_, related_to: vec![ikal::Text { params: Default::default(), text: (h.s(13)).to_string() }], rrule: Some(("FREQ=NEVER").parse::<ikal::Recur>()?), summary: summary_, ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_42(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::vfreebusy! {
        dtstamp: h.s(0),
        uid: h.s(1),
        contact: h.s(2),
        dtstart: h.s(3),
        dtend: h.s(4),
        organizer: h.s(5),
        url: h.s(6),
        attendee: [h.s(7),],
        comment: [h.s(8),],
        freebusy: [h.period(9),],
        rstatus: [h.s(10),],
        x_prop: h.todo(11).x_prop,
        iana_prop: h.todo(12).x_prop,
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VFreebusy, ikal::Error> { Ok(ikal::VFreebusy { dtstamp: (h.s(0)).parse::<ikal::DateTime>()?, uid: ikal::Text { params: Default::default(), text: (h.s(1)).to_string() }, contact: Some(ikal::Text { params: Default::default(), text: (h.s(2)).to_string() }), dtstart: Some((h.s(3)).parse::<ikal::Date>()?), dtend: Some((h.s(4)).parse::<ikal::Date>()?), organizer: Some(ikal::Uri { params: Default::default(), uri: (h.s(5)).to_string() }), url: Some(ikal::Uri { params: Default::default(), uri: (h.s(6)).to_string() }), attendee: vec![ikal::Uri { params: Default::default(), uri: (h.s(7)).to_string() }], comment: vec![ikal::Text { params: Default::default(), text: (h.s(8)).to_string() }], freebusy: vec![h.period(9)], rstatus: vec![(h.s(10)).parse::<ikal::RequestStatus>()?], x_prop: h.todo(11).x_prop, iana_prop: h.todo(12).x_prop, ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_43(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::vfreebusy! {
        dtstamp: h.s(0),
        uid: h.string(1),
        contact: h.string(2),
        dtstart: h.s(3),
        dtend: h.s(4),
        organizer: h.string(5),
        url: h.string(6),
        attendee: [h.string(7)],
        comment: [h.string(8)],
        freebusy: [h.period(9)],
        rstatus: [{
            statdesc: format!("{}, {}", h.s(10), 1),
        }],
        x_prop: h.todo(11).x_prop,
        iana_prop: h.todo(12).x_prop,
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VFreebusy, ikal::Error> { Ok(ikal::VFreebusy { dtstamp: (h.s(0)).parse::<ikal::DateTime>()?, uid: ikal::Text { params: Default::default(), text: (h.string(1)).to_string() }, contact: Some(ikal::Text { params: Default::default(), text: (h.string(2)).to_string() }), dtstart: Some((h.s(3)).parse::<ikal::Date>()?), dtend: Some((h.s(4)).parse::<ikal::Date>()?), organizer: Some(ikal::Uri { params: Default::default(), uri: (h.string(5)).to_string() }), url: Some(ikal::Uri { params: Default::default(), uri: (h.string(6)).to_string() }), attendee: vec![ikal::Uri { params: Default::default(), uri: (h.string(7)).to_string() }], comment: vec![ikal::Text { params: Default::default(), text: (h.string(8)).to_string() }], freebusy: vec![h.period(9)], rstatus: vec![ikal::RequestStatus { statdesc: (format!("{}, {}", h.s(10), 1)).to_string(), ..Default::default() }], x_prop: h.todo(11).x_prop, iana_prop: h.todo(12).x_prop, ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_44(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::vfreebusy! {
        dtstamp: h.string(0),
        uid: format!("{}, {}", h.s(1), 1),
        contact: format!("{}, {}", h.s(2), 1),
        dtstart: &h.string(3),
        dtend: h.string(4),
        organizer: format!("{}, {}", h.s(5), 1) 
        url: format!("{}, {}", h.s(6), 1),
        attendee: [format!("{}, {}", h.s(7), 1), format!("{}, {}", h.s(8), 1), h.params::<ikal::Uri>(9), h.params::<ikal::Uri>(10)],
        comment: [format!("{}, {}", h.s(11), 1), format!("{}, {}", h.s(12), 1), h.params::<ikal::Text>(13), h.params::<ikal::Text>(14)],
        freebusy: [h.period(15), h.period(16)],
        rstatus: [&h.string(17), {
            statdesc: h.string(18),
            statcode: h.f32(19),
            extdata: h.string(20),
        }, {
            statcode: h.f32(21),
            statdesc: h.s(22) 
            extdata: h.s(23) 
        }],
        x_prop: h.todo(24).x_prop,
        iana_prop: h.todo(25).x_prop,
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VFreebusy, ikal::Error> { Ok(ikal::VFreebusy { dtstamp: (h.string(0)).parse::<ikal::DateTime>()?, uid: ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(1), 1)).to_string() }, contact: Some(ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(2), 1)).to_string() }), dtstart: Some((h.string(3)).parse::<ikal::Date>()?), dtend: Some((h.string(4)).parse::<ikal::Date>()?), organizer: Some(ikal::Uri { params: Default::default(), uri: (format!("{}, {}", h.s(5), 1)).to_string() }), url: Some(ikal::Uri { params: Default::default(), uri: (format!("{}, {}", h.s(6), 1)).to_string() }), attendee: vec![ikal::Uri { params: Default::default(), uri: (format!("{}, {}", h.s(7), 1)).to_string() }, ikal::Uri { params: Default::default(), uri: (format!("{}, {}", h.s(8), 1)).to_string() }, h.params::<ikal::Uri>(9), h.params::<ikal::Uri>(10)], comment: vec![ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(11), 1)).to_string() }, ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(12), 1)).to_string() }, h.params::<ikal::Text>(13), h.params::<ikal::Text>(14)], freebusy: vec![h.period(15), h.period(16)], rstatus: vec![(h.string(17)).parse::<ikal::RequestStatus>()?, ikal::RequestStatus { statdesc: (h.string(18)).to_string(), statcode: h.f32(19), extdata: Some((h.string(20)).to_string()), ..Default::default() }, ikal::RequestStatus { statcode: h.f32(21), statdesc: (h.s(22)).to_string(), extdata: Some((h.s(23)).to_string()), ..Default::default() }], x_prop: h.todo(24).x_prop, iana_prop: h.todo(25).x_prop, ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_45(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::vfreebusy! {
        dtstamp: h.s(0),
        uid: h.params::<ikal::Text>(1),
        contact: h.params::<ikal::Text>(2),
        dtstart: h.s(3) 
        dtend: h.s(4),
        organizer: h.params::<ikal::Uri>(5),
        url: h.params::<ikal::Uri>(6),
        attendee: [h.params::<ikal::Uri>(7), h.params::<ikal::Uri>(8), "a, b; c", h.string(9), h.string(10),],
        comment: [h.params::<ikal::Text>(11), "a, b; c", "a, b; c", h.string(12),],
        freebusy: [h.period(13), h.period(14), h.period(15), h.period(16), h.period(17),],
        rstatus: [{
            statdesc: format!("{}, {}", h.s(18), 1),
        }, "Success", "Success", {
            statcode: h.f32(19),
            extdata: h.string(20),
            statdesc: h.s(21),
        },],
        x_prop: h.todo(22).x_prop,
        iana_prop: h.todo(23).x_prop 
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VFreebusy, ikal::Error> { Ok(ikal::VFreebusy { dtstamp: (h.s(0)).parse::<ikal::DateTime>()?, uid: h.params::<ikal::Text>(1), contact: Some(h.params::<ikal::Text>(2)), dtstart: Some((h.s(3)).parse::<ikal::Date>()?), dtend: Some((h.s(4)).parse::<ikal::Date>()?), organizer: Some(h.params::<ikal::Uri>(5)), url: Some(h.params::<ikal::Uri>(6)), attendee: vec![h.params::<ikal::Uri>(7), h.params::<ikal::Uri>(8), ikal::Uri { params: Default::default(), uri: ("a, b; c").to_string() }, ikal::Uri { params: Default::default(), uri: (h.string(9)).to_string() }, ikal::Uri { params: Default::default(), uri: (h.string(10)).to_string() }], comment: vec![h.params::<ikal::Text>(11), ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }, ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }, ikal::Text { params: Default::default(), text: (h.string(12)).to_string() }], freebusy: vec![h.period(13), h.period(14), h.period(15), h.period(16), h.period(17)], rstatus: vec![ikal::RequestStatus { statdesc: (format!("{}, {}", h.s(18), 1)).to_string(), ..Default::default() }, ("Success").parse::<ikal::RequestStatus>()?, ("Success").parse::<ikal::RequestStatus>()?, ikal::RequestStatus { statcode: h.f32(19), extdata: Some((h.string(20)).to_string()), statdesc: (h.s(21)).to_string(), ..Default::default() }], x_prop: h.todo(22).x_prop, iana_prop: h.todo(23).x_prop, ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_46(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::vfreebusy! {
        dtstamp: "20240331" 
        uid: "a, b; c",
        contact: "a, b; c",
        dtstart: "20240229T",
        dtend: "20240331T023000",
        organizer: "a, b; c",
        url: "a, b; c" 
        attendee: [],
        comment: [] 
        freebusy: [],
        rstatus: [],
        x_prop: h.todo(0).x_prop,
        iana_prop: h.todo(1).x_prop,
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VFreebusy, ikal::Error> { Ok(ikal::VFreebusy { dtstamp: ("20240331").parse::<ikal::DateTime>()?, uid: ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }, contact: Some(ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }), dtstart: Some(("20240229T").parse::<ikal::Date>()?), dtend: Some(("20240331T023000").parse::<ikal::Date>()?), organizer: Some(ikal::Uri { params: Default::default(), uri: ("a, b; c").to_string() }), url: Some(ikal::Uri { params: Default::default(), uri: ("a, b; c").to_string() }), attendee: vec![], comment: vec![], freebusy: vec![], rstatus: vec![], x_prop: h.todo(0).x_prop, iana_prop: h.todo(1).x_prop, ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_47(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::vfreebusy! {
        dtstamp: h.s(0) 
        uid: h.string(1) 
        contact: h.string(2),
        dtstart: h.s(3) 
        dtend: h.s(4),
        organizer: h.string(5),
        url: h.string(6),
        attendee: [h.string(7)] 
        comment: [h.string(8)],
        freebusy: [h.period(9)],
        rstatus: [{
            statdesc: h.s(10),
            extdata: format!("{}, {}", h.s(11), 1),
            statcode: h.f32(12),
        }] 
        x_prop: h.todo(13).x_prop,
        iana_prop: h.todo(14).x_prop,
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VFreebusy, ikal::Error> { Ok(ikal::VFreebusy { dtstamp: (h.s(0)).parse::<ikal::DateTime>()?, uid: ikal::Text { params: Default::default(), text: (h.string(1)).to_string() }, contact: Some(ikal::Text { params: Default::default(), text: (h.string(2)).to_string() }), dtstart: Some((h.s(3)).parse::<ikal::Date>()?), dtend: Some((h.s(4)).parse::<ikal::Date>()?), organizer: Some(ikal::Uri { params: Default::default(), uri: (h.string(5)).to_string() }), url: Some(ikal::Uri { params: Default::default(), uri: (h.string(6)).to_string() }), attendee: vec![ikal::Uri { params: Default::default(), uri: (h.string(7)).to_string() }], comment: vec![ikal::Text { params: Default::default(), text: (h.string(8)).to_string() }], freebusy: vec![h.period(9)], rstatus: vec![ikal::RequestStatus { statdesc: (h.s(10)).to_string(), extdata: Some((format!("{}, {}", h.s(11), 1)).to_string()), statcode: h.f32(12), ..Default::default() }], x_prop: h.todo(13).x_prop, iana_prop: h.todo(14).x_prop, ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_48(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::vfreebusy! {
        dtstamp: h.s(0),
        uid: format!("{}, {}", h.s(1), 1) 
        contact: format!("{}, {}", h.s(2), 1),
        dtstart: h.s(3),
        dtend: h.s(4),
        organizer: format!("{}, {}", h.s(5), 1),
        url: format!("{}, {}", h.s(6), 1) 
        attendee: [format!("{}, {}", h.s(7), 1), format!("{}, {}", h.s(8), 1), h.params::<ikal::Uri>(9),],
        comment: [format!("{}, {}", h.s(10), 1), h.params::<ikal::Text>(11),],
        freebusy: [h.period(12), h.period(13), h.period(14), h.period(15),],
        rstatus: [h.s(16), {
            extdata: h.s(17),
            statdesc: h.s(18),
            statcode: h.f32(19),
        },],
        x_prop: h.todo(20).x_prop,
        iana_prop: h.todo(21).x_prop,
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VFreebusy, ikal::Error> { Ok(ikal::VFreebusy { dtstamp: (h.s(0)).parse::<ikal::DateTime>()?, uid: ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(1), 1)).to_string() }, contact: Some(ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(2), 1)).to_string() }), dtstart: Some((h.s(3)).parse::<ikal::Date>()?), dtend: Some((h.s(4)).parse::<ikal::Date>()?), organizer: Some(ikal::Uri { params: Default::default(), uri: (format!("{}, {}", h.s(5), 1)).to_string() }), url: Some(ikal::Uri { params: Default::default(), uri: (format!("{}, {}", h.s(6), 1)).to_string() }), attendee: vec![ikal::Uri { params: Default::default(), uri: (format!("{}, {}", h.s(7), 1)).to_string() }, ikal::Uri { params: Default::default(), uri: (format!("{}, {}", h.s(8), 1)).to_string() }, h.params::<ikal::Uri>(9)], comment: vec![ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(10), 1)).to_string() }, h.params::<ikal::Text>(11)], freebusy: vec![h.period(12), h.period(13), h.period(14), h.period(15)], rstatus: vec![(h.s(16)).parse::<ikal::RequestStatus>()?, ikal::RequestStatus { extdata: Some((h.s(17)).to_string()), statdesc: (h.s(18)).to_string(), statcode: h.f32(19), ..Default::default() }], x_prop: h.todo(20).x_prop, iana_prop: h.todo(21).x_prop, ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_49(h: &Holes) -> Outcome {
    let dtstamp_: ikal::DateTime = h.parsed::<ikal::DateTime>(0);
    let dtstamp = dtstamp_.clone();
    let uid_: ikal::Text = h.params::<ikal::Text>(1);
    let uid = uid_.clone();
    let contact_: Option<ikal::Text> = Some(h.params::<ikal::Text>(2));
    let contact = contact_.clone();
    let dtstart_: Option<ikal::Date> = None;
    let dtstart = dtstart_.clone();
    let dtend_: Option<ikal::Date> = Some(h.parsed::<ikal::Date>(4));
    let dtend = dtend_.clone();
    let organizer_: Option<ikal::Uri> = None;
    let organizer = organizer_.clone();
    let url_: Option<ikal::Uri> = Some(h.params::<ikal::Uri>(6));
    let url = url_.clone();
    let attendee_: Vec<ikal::Uri> = vec![h.params::<ikal::Uri>(7)];
    let attendee = attendee_.clone();
    let comment_: Vec<ikal::Text> = vec![h.params::<ikal::Text>(8), h.params::<ikal::Text>(9)];
    let comment = comment_.clone();
    let freebusy_: Vec<ikal::Period> = vec![h.period(10), h.period(11), h.period(12)];
    let freebusy = freebusy_.clone();
    let rstatus_: Vec<ikal::RequestStatus> = vec![h.parsed::<ikal::RequestStatus>(13), h.parsed::<ikal::RequestStatus>(14), h.parsed::<ikal::RequestStatus>(15)];
    let rstatus = rstatus_.clone();
    let x_prop_: std::collections::BTreeMap<String, _> = h.todo(16).x_prop;
    let x_prop = x_prop_.clone();
    let iana_prop_: std::collections::BTreeMap<String, _> = h.todo(17).x_prop;
    let iana_prop = iana_prop_.clone();
    h.begin();
    let built = ikal::vfreebusy! {
        dtstamp,
        uid,
        contact,
        dtstart,
        dtend,
        organizer,
        url,
        attendee,
        comment,
        freebusy,
        rstatus,
        x_prop,
        iana_prop,
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VFreebusy, ikal::Error> { Ok(ikal::VFreebusy { dtstamp: dtstamp_, uid: uid_, contact: contact_, dtstart: dtstart_, dtend: dtend_, organizer: organizer_, url: url_, attendee: attendee_, comment: comment_, freebusy: freebusy_, rstatus: rstatus_, x_prop: x_prop_, iana_prop: iana_prop_, ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_50(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::vfreebusy! {
        dtstamp: h.s(0) 
        url: h.string(1),
        rstatus: [h.s(2),] 
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VFreebusy, ikal::Error> { Ok(ikal::VFreebusy { dtstamp: (h.s(0)).parse::<ikal::DateTime>()?, url: Some(ikal::Uri { params: Default::default(), uri: (h.string(1)).to_string() }), rstatus: vec![(h.s(2)).parse::<ikal::RequestStatus>()?], ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_51(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::vfreebusy! {
        uid: h.s(0),
        dtend: h.s(1) 
        iana_prop: h.todo(2).x_prop,
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VFreebusy, ikal::Error> { Ok(ikal::VFreebusy { uid: ikal::Text { params: Default::default(), text: (h.s(0)).to_string() }, dtend: Some((h.s(1)).parse::<ikal::Date>()?), iana_prop: h.todo(2).x_prop, ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_52(h: &Holes) -> Outcome {
    let rstatus_: Vec<ikal::RequestStatus> = vec![h.parsed::<ikal::RequestStatus>(1), h.parsed::<ikal::RequestStatus>(2)];
    let rstatus = rstatus_.clone();
    h.begin();
    let built = ikal::vfreebusy! {
        x_prop: h.todo(0).x_prop 
        rstatus,
        organizer: h.string(3) 
        dtstart: h.s(4),
        freebusy: [h.period(5),],
        iana_prop: h.todo(6).x_prop,
        contact: h.params::<ikal::Text>(7),
        dtstamp: h.s(8),
        attendee: [h.string(9)],
        comment: [h.s(10),] 
        url: "a, b; c",
        uid: "a, b; c",
        dtend: h.s(11),
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VFreebusy, ikal::Error> { Ok(ikal::VFreebusy { x_prop: h.todo(0).x_prop, rstatus: rstatus_, organizer: Some(ikal::Uri { params: Default::default(), uri: (h.string(3)).to_string() }), dtstart: Some((h.s(4)).parse::<ikal::Date>()?), freebusy: vec![h.period(5)], iana_prop: h.todo(6).x_prop, contact: Some(h.params::<ikal::Text>(7)), dtstamp: (h.s(8)).parse::<ikal::DateTime>()?, attendee: vec![ikal::Uri { params: Default::default(), uri: (h.string(9)).to_string() }], comment: vec![ikal::Text { params: Default::default(), text: (h.s(10)).to_string() }], url: Some(ikal::Uri { params: Default::default(), uri: ("a, b; c").to_string() }), uid: ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }, dtend: Some((h.s(11)).parse::<ikal::Date>()?), ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_53(h: &Holes) -> Outcome {
    let x_prop_: std::collections::BTreeMap<String, _> = h.todo(1).x_prop;
    let x_prop = x_prop_.clone();
    let url_: Option<ikal::Uri> = Some(h.params::<ikal::Uri>(2));
    let url = url_.clone();
    let comment_: Vec<ikal::Text> = vec![h.params::<ikal::Text>(10)];
    let comment = comment_.clone();
    h.begin();
    let built = ikal::vfreebusy! {
        dtstamp: h.string(0),
        dtend: "20240229T",
        x_prop,
        url,
        uid: h.params::<ikal::Text>(3),
        organizer: format!("{}, {}", h.s(4), 1) 
        contact: h.string(5),
        rstatus: [h.s(6), h.s(7), {
            extdata: h.s(8),
            statdesc: "a, b; c" 
            statcode: h.f32(9),
        },],
        comment,
        dtstart: h.s(11),
        freebusy: [],
        attendee: [h.string(12)],
        iana_prop: h.todo(13).x_prop,
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VFreebusy, ikal::Error> { Ok(ikal::VFreebusy { dtstamp: (h.string(0)).parse::<ikal::DateTime>()?, dtend: Some(("20240229T").parse::<ikal::Date>()?), x_prop: x_prop_, url: url_, uid: h.params::<ikal::Text>(3), organizer: Some(ikal::Uri { params: Default::default(), uri: (format!("{}, {}", h.s(4), 1)).to_string() }), contact: Some(ikal::Text { params: Default::default(), text: (h.string(5)).to_string() }), rstatus: vec![(h.s(6)).parse::<ikal::RequestStatus>()?, (h.s(7)).parse::<ikal::RequestStatus>()?, ikal::RequestStatus { extdata: Some((h.s(8)).to_string()), statdesc: ("a, b; c").to_string(), statcode: h.f32(9), ..Default::default() }], comment: comment_, dtstart: Some((h.s(11)).parse::<ikal::Date>()?), freebusy: vec![], attendee: vec![ikal::Uri { params: Default::default(), uri: (h.string(12)).to_string() }], iana_prop: h.todo(13).x_prop, ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_54(h: &Holes) -> Outcome {
    let iana_prop_: std::collections::BTreeMap<String, _> = h.todo(2).x_prop;
    let iana_prop = iana_prop_.clone();
    let dtstamp_: ikal::DateTime = h.parsed::<ikal::DateTime>(6);
    let dtstamp = dtstamp_.clone();
    let contact_: Option<ikal::Text> = None;
    let contact = contact_.clone();
    h.begin();
    let built = ikal::vfreebusy! {
        dtstart: h.s(0) 
        url: format!("{}, {}", h.s(1), 1) 
        iana_prop,
        attendee: [h.s(3),],
        organizer: h.s(4),
        x_prop: h.todo(5).x_prop,
        dtstamp,
        comment: [h.string(7)],
        freebusy: [h.period(8),],
        contact,
        rstatus: [{
            statdesc: "a, b; c",
            statcode: h.f32(10),
            extdata: "a, b; c",
        }, {
            statcode: h.f32(11),
            extdata: h.s(12) 
            statdesc: h.s(13),
        }, "2.0;Success", {
            extdata: format!("{}, {}", h.s(14), 1),
        }, {
            statcode: h.f32(15) 
            statdesc: format!("{}, {}", h.s(16), 1) 
        },],
        uid: "a, b; c",
        dtend: h.s(17) 
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VFreebusy, ikal::Error> { Ok(ikal::VFreebusy { dtstart: Some((h.s(0)).parse::<ikal::Date>()?), url: Some(ikal::Uri { params: Default::default(), uri: (format!("{}, {}", h.s(1), 1)).to_string() }), iana_prop: iana_prop_, attendee: vec![ikal::Uri { params: Default::default(), uri: (h.s(3)).to_string() }], organizer: Some(ikal::Uri { params: Default::default(), uri: (h.s(4)).to_string() }), x_prop: h.todo(5).x_prop, dtstamp: dtstamp_, comment: vec![ikal::Text { params: Default::default(), text: (h.string(7)).to_string() }], freebusy: vec![h.period(8)], contact: contact_, rstatus: vec![ikal::RequestStatus { statdesc: ("a, b; c").to_string(), statcode: h.f32(10), extdata: Some(("a, b; c").to_string()), ..Default::default() }, ikal::RequestStatus { statcode: h.f32(11), extdata: Some((h.s(12)).to_string()), statdesc: (h.s(13)).to_string(), ..Default::default() }, ("2.0;Success").parse::<ikal::RequestStatus>()?, ikal::RequestStatus { extdata: Some((format!("{}, {}", h.s(14), 1)).to_string()), ..Default::default() }, ikal::RequestStatus { statcode: h.f32(15), statdesc: (format!("{}, {}", h.s(16), 1)).to_string(), ..Default::default() }], uid: ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }, dtend: Some((h.s(17)).parse::<ikal::Date>()?), ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_55(h: &Holes) -> Outcome {
    let dtstart_: Option<ikal::Date> = Some(h.parsed::<ikal::Date>(5));
    let dtstart = dtstart_.clone();
    h.begin();
    let built = ikal::vfreebusy! {
        url: h.s(0) 
        attendee: [format!("{}, {}", h.s(1), 1), format!("{}, {}", h.s(2), 1), h.params::<ikal::Uri>(3),],
        iana_prop: h.todo(4).x_prop,
        dtstart,
        x_prop: h.todo(6).x_prop,
        rstatus: [h.s(7), {
            statdesc: h.string(8),
        }, {
            extdata: format!("{}, {}", h.s(9), 1),
        },],
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VFreebusy, ikal::Error> { Ok(ikal::VFreebusy { url: Some(ikal::Uri { params: Default::default(), uri: (h.s(0)).to_string() }), attendee: vec![ikal::Uri { params: Default::default(), uri: (format!("{}, {}", h.s(1), 1)).to_string() }, ikal::Uri { params: Default::default(), uri: (format!("{}, {}", h.s(2), 1)).to_string() }, h.params::<ikal::Uri>(3)], iana_prop: h.todo(4).x_prop, dtstart: dtstart_, x_prop: h.todo(6).x_prop, rstatus: vec![(h.s(7)).parse::<ikal::RequestStatus>()?, ikal::RequestStatus { statdesc: (h.string(8)).to_string(), ..Default::default() }, ikal::RequestStatus { extdata: Some((format!("{}, {}", h.s(9), 1)).to_string()), ..Default::default() }], ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_56(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::vtimezone! {
        tzid: h.s(0),
        last_modified: h.s(1),
        tzurl: h.s(2),
        standard: [{
            dtstart: h.s(3) 
            tzoffsetto: h.s(4),
            tzname: [h.string(5)],
            rdate: [h.s(6),],
        },],
        daylight: [{
            comment: [h.s(7),],
            tzoffsetfrom: h.s(8),
            tzname: [h.s(9),],
            iana_prop: h.todo(10).x_prop,
        },],
        x_prop: h.todo(11).x_prop,
        iana_prop: h.todo(12).x_prop,
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VTimezone, ikal::Error> { Ok(ikal::VTimezone { tzid: ikal::Text { params: Default::default(), text: (h.s(0)).to_string() }, last_modified: Some((h.s(1)).parse::<ikal::DateTime>()?), tzurl: Some(ikal::Uri { params: Default::default(), uri: (h.s(2)).to_string() }), standard: vec![ikal::vtimezone::Standard { dtstart: (h.s(3)).parse::<ikal::Date>()?, tzoffsetto: (h.s(4)).parse::<chrono::FixedOffset>()?, tzname: vec![ikal::Text { params: Default::default(), text: (h.string(5)).to_string() }], rdate: vec![(h.s(6)).parse::<ikal::RDate>()?], ..Default::default() }], daylight: vec![ikal::vtimezone::Daylight { comment: vec![ikal::Text { params: Default::default(), text: (h.s(7)).to_string() }], tzoffsetfrom: (h.s(8)).parse::<chrono::FixedOffset>()?, tzname: vec![ikal::Text { params: Default::default(), text: (h.s(9)).to_string() }], iana_prop: h.todo(10).x_prop, ..Default::default() }], x_prop: h.todo(11).x_prop, iana_prop: h.todo(12).x_prop, ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_57(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::vtimezone! {
        tzid: h.string(0),
        last_modified: h.s(1),
        tzurl: h.string(2),
        standard: [{
            comment: [h.string(3)],
            tzoffsetto: h.string(4),
            iana_prop: h.todo(5).x_prop,
        }],
        daylight: [{
            rdate: [h.string(6), &h.string(7), h.s(8)],
        }] 
        x_prop: h.todo(9).x_prop,
        iana_prop: h.todo(10).x_prop,
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VTimezone, ikal::Error> { Ok(ikal::VTimezone { tzid: ikal::Text { params: Default::default(), text: (h.string(0)).to_string() }, last_modified: Some((h.s(1)).parse::<ikal::DateTime>()?), tzurl: Some(ikal::Uri { params: Default::default(), uri: (h.string(2)).to_string() }), standard: vec![ikal::vtimezone::Standard { comment: vec![ikal::Text { params: Default::default(), text: (h.string(3)).to_string() }], tzoffsetto: (h.string(4)).parse::<chrono::FixedOffset>()?, iana_prop: h.todo(5).x_prop, ..Default::default() }], daylight: vec![ikal::vtimezone::Daylight { rdate: vec![(h.string(6)).parse::<ikal::RDate>()?, (h.string(7)).parse::<ikal::RDate>()?, (h.s(8)).parse::<ikal::RDate>()?], ..Default::default() }], x_prop: h.todo(9).x_prop, iana_prop: h.todo(10).x_prop, ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_58(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::vtimezone! {
        tzid: format!("{}, {}", h.s(0), 1) 
        last_modified: &h.string(1),
        tzurl: format!("{}, {}", h.s(2), 1) 
        standard: [{
            rdate: [h.s(3)],
        }, {
            dtstart: h.s(4) 
            comment: [format!("{}, {}", h.s(5), 1), h.params::<ikal::Text>(6), h.params::<ikal::Text>(7)],
            tzoffsetto: h.string(8),
        }],
        daylight: [{
            comment: [format!("{}, {}", h.s(9), 1), h.params::<ikal::Text>(10),],
        }, {
            tzname: [format!("{}, {}", h.s(11), 1), format!("{}, {}", h.s(12), 1), h.params::<ikal::Text>(13)],
            tzoffsetfrom: h.s(14),
        }, {
            tzname: [h.params::<ikal::Text>(15)],
        }, {
            tzname: [h.params::<ikal::Text>(16)],
            rdate: [h.s(17),] 
            x_prop: h.todo(18).x_prop,
            dtstart: h.s(19),
        }],
        x_prop: h.todo(20).x_prop 
        iana_prop: h.todo(21).x_prop,
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VTimezone, ikal::Error> { Ok(ikal::VTimezone { tzid: ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(0), 1)).to_string() }, last_modified: Some((h.string(1)).parse::<ikal::DateTime>()?), tzurl: Some(ikal::Uri { params: Default::default(), uri: (format!("{}, {}", h.s(2), 1)).to_string() }), standard: vec![ikal::vtimezone::Standard { rdate: vec![(h.s(3)).parse::<ikal::RDate>()?], ..Default::default() }, ikal::vtimezone::Standard { dtstart: (h.s(4)).parse::<ikal::Date>()?, comment: vec![ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(5), 1)).to_string() }, h.params::<ikal::Text>(6), h.params::<ikal::Text>(7)], tzoffsetto: (h.string(8)).parse::<chrono::FixedOffset>()?, ..Default::default() }], daylight: vec![ikal::vtimezone::Daylight { comment: vec![ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(9), 1)).to_string() }, h.params::<ikal::Text>(10)], ..Default::default() }, ikal::vtimezone::Daylight { tzname: vec![ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(11), 1)).to_string() }, ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(12), 1)).to_string() }, h.params::<ikal::Text>(13)], tzoffsetfrom: (h.s(14)).parse::<chrono::FixedOffset>()?, ..Default::default() }, ikal::vtimezone::Daylight { tzname: vec![h.params::<ikal::Text>(15)], ..Default::default() }, ikal::vtimezone::Daylight { tzname: vec![h.params::<ikal::Text>(16)], rdate: vec![(h.s(17)).parse::<ikal::RDate>()?], x_prop: h.todo(18).x_prop, dtstart: (h.s(19)).parse::<ikal::Date>()?, ..Default::default() }], x_prop: h.todo(20).x_prop, iana_prop: h.todo(21).x_prop, ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_59(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::vtimezone! {
        tzid: h.params::<ikal::Text>(0),
        last_modified: h.s(1) 
        tzurl: h.params::<ikal::Uri>(2),
        standard: [{
            x_prop: h.todo(3).x_prop,
            tzoffsetto: h.s(4),
            dtstart: h.s(5),
            rrule: {
                by_hour: [-5],
                by_monthday: [h.i8(6)] 
                by_month: [h.u8(7) as i8, h.u8(8) as i8, 1 + 2,],
                by_minute: [h.i8(9)],
                by_day: [h.weekday(10), h.weekday(11), h.weekday(12)],
                interval: h.u8(13) 
                freq: Weekly,
                by_second: [],
                until: h.parsed::<ikal::Date>(14),
                by_weekno: [h.i8(15)],
                by_setpos: [h.i8(16),],
                wkst: h.weekday(17).weekday,
                by_yearday: [h.i8(18)],
                count: Some(h.u8(19)) 
            },
            rdate: [h.s(20), h.s(21), "20240229", "20240229", h.s(22),],
            tzoffsetfrom: "-0330",
            tzname: [h.params::<ikal::Text>(23), h.params::<ikal::Text>(24), "a, b; c", "a, b; c", h.string(25), h.string(26),],
            comment: [],
            iana_prop: h.todo(27).x_prop,
        }, {
            tzoffsetfrom: h.s(28),
            iana_prop: h.todo(29).x_prop,
            rdate: [h.s(30)],
        }, {
            tzoffsetto: h.s(31),
        }, {
            tzoffsetto: h.s(32),
            rrule: h.s(33),
        }, {
            dtstart: h.s(34),
        },],
        daylight: [{
            iana_prop: h.todo(35).x_prop,
        }, {
            dtstart: h.s(36),
            tzname: [],
        }, {
            tzoffsetfrom: h.s(37),
            rdate: [h.s(38)] 
        }, {
            tzname: [h.string(39)],
        }, {
            tzname: [h.s(40),] 
            dtstart: h.s(41),
        },],
        x_prop: h.todo(42).x_prop,
        iana_prop: h.todo(43).x_prop 
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VTimezone, ikal::Error> { Ok(ikal::VTimezone { tzid: h.params::<ikal::Text>(0), last_modified: Some((h.s(1)).parse::<ikal::DateTime>()?), tzurl: Some(h.params::<ikal::Uri>(2)), standard: vec![ikal::vtimezone::Standard { x_prop: h.todo(3).x_prop, tzoffsetto: (h.s(4)).parse::<chrono::FixedOffset>()?, dtstart: (h.s(5)).parse::<ikal::Date>()?, rrule: Some(ikal::Recur { by_hour: vec![-5], by_monthday: vec![h.i8(6)], by_month: vec![h.u8(7) as i8, h.u8(8) as i8, 1 + 2], by_minute: vec![h.i8(9)], by_day: vec![h.weekday(10), h.weekday(11), h.weekday(12)], interval: h.u8(13), freq: ikal::Freq::Weekly, by_second: vec![], until: Some(h.parsed::<ikal::Date>(14)), by_weekno: vec![h.i8(15)], by_setpos: vec![h.i8(16)], wkst: Some(h.weekday(17).weekday), by_yearday: vec![h.i8(18)], count: Some(h.u8(19)), ..Default::default() }), rdate: vec![(h.s(20)).parse::<ikal::RDate>()?, (h.s(21)).parse::<ikal::RDate>()?, ("20240229").parse::<ikal::RDate>()?, ("20240229").parse::<ikal::RDate>()?, (h.s(22)).parse::<ikal::RDate>()?], tzoffsetfrom: ("-0330").parse::<chrono::FixedOffset>()?, tzname: vec![h.params::<ikal::Text>(23), h.params::<ikal::Text>(24), ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }, ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }, ikal::Text { params: Default::default(), text: (h.string(25)).to_string() }, ikal::Text { params: Default::default(), text: (h.string(26)).to_string() }], comment: vec![], iana_prop: h.todo(27).x_prop, ..Default::default() }, ikal::vtimezone::Standard { tzoffsetfrom: (h.s(28)).parse::<chrono::FixedOffset>()?, iana_prop: h.todo(29).x_prop, rdate: vec![(h.s(30)).parse::<ikal::RDate>()?], ..Default::default() }, ikal::vtimezone::Standard { tzoffsetto: (h.s(31)).parse::<chrono::FixedOffset>()?, ..Default::default() }, ikal::vtimezone::Standard { tzoffsetto: (h.s(32)).parse::<chrono::FixedOffset>()?, rrule: Some((h.s(33)).parse::<ikal::Recur>()?), ..Default::default() }, ikal::vtimezone::Standard { dtstart: (h.s(34)).parse::<ikal::Date>()?, ..Default::default() }], daylight: vec![ikal::vtimezone::Daylight { iana_prop: h.todo(35).x_prop, ..Default::default() }, ikal::vtimezone::Daylight { dtstart: (h.s(36)).parse::<ikal::Date>()?, tzname: vec![], ..Default::default() }, ikal::vtimezone::Daylight { tzoffsetfrom: (h.s(37)).parse::<chrono::FixedOffset>()?, rdate: vec![(h.s(38)).parse::<ikal::RDate>()?], ..Default::default() }, ikal::vtimezone::Daylight { tzname: vec![ikal::Text { params: Default::default(), text: (h.string(39)).to_string() }], ..Default::default() }, ikal::vtimezone::Daylight { tzname: vec![ikal::Text { params: Default::default(), text: (h.s(40)).to_string() }], dtstart: (h.s(41)).parse::<ikal::Date>()?, ..Default::default() }], x_prop: h.todo(42).x_prop, iana_prop: h.todo(43).x_prop, ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_60(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::vtimezone! {
        tzid: "a, b; c",
        last_modified: "20240331T023000",
        tzurl: "a, b; c",
        standard: [] 
        daylight: [] 
        x_prop: h.todo(0).x_prop,
        iana_prop: h.todo(1).x_prop,
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VTimezone, ikal::Error> { Ok(ikal::VTimezone { tzid: ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }, last_modified: Some(("20240331T023000").parse::<ikal::DateTime>()?), tzurl: Some(ikal::Uri { params: Default::default(), uri: ("a, b; c").to_string() }), standard: vec![], daylight: vec![], x_prop: h.todo(0).x_prop, iana_prop: h.todo(1).x_prop, ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_61(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::vtimezone! {
        tzid: h.string(0),
        last_modified: h.s(1),
        tzurl: h.string(2),
        standard: [{
            tzname: [h.params::<ikal::Text>(3)],
            rdate: [h.string(4), h.s(5), h.s(6)] 
        }] 
        daylight: [{
            x_prop: h.todo(7).x_prop,
            tzoffsetfrom: h.s(8),
            dtstart: &h.string(9),
            tzoffsetto: h.s(10),
        }],
        x_prop: h.todo(11).x_prop,
        iana_prop: h.todo(12).x_prop,
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VTimezone, ikal::Error> { Ok(ikal::VTimezone { tzid: ikal::Text { params: Default::default(), text: (h.string(0)).to_string() }, last_modified: Some((h.s(1)).parse::<ikal::DateTime>()?), tzurl: Some(ikal::Uri { params: Default::default(), uri: (h.string(2)).to_string() }), standard: vec![ikal::vtimezone::Standard { tzname: vec![h.params::<ikal::Text>(3)], rdate: vec![(h.string(4)).parse::<ikal::RDate>()?, (h.s(5)).parse::<ikal::RDate>()?, (h.s(6)).parse::<ikal::RDate>()?], ..Default::default() }], daylight: vec![ikal::vtimezone::Daylight { x_prop: h.todo(7).x_prop, tzoffsetfrom: (h.s(8)).parse::<chrono::FixedOffset>()?, dtstart: (h.string(9)).parse::<ikal::Date>()?, tzoffsetto: (h.s(10)).parse::<chrono::FixedOffset>()?, ..Default::default() }], x_prop: h.todo(11).x_prop, iana_prop: h.todo(12).x_prop, ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_62(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::vtimezone! {
        tzid: format!("{}, {}", h.s(0), 1),
        last_modified: h.s(1),
        tzurl: format!("{}, {}", h.s(2), 1),
        standard: [{
            iana_prop: h.todo(3).x_prop,
            tzoffsetfrom: h.s(4) 
            rdate: [&h.string(5)],
        }, {
            tzoffsetfrom: h.s(6),
        }, {
            iana_prop: h.todo(7).x_prop,
            x_prop: h.todo(8).x_prop,
            dtstart: h.s(9),
        }, {
            tzoffsetfrom: h.s(10),
            iana_prop: h.todo(11).x_prop,
            dtstart: h.string(12),
            rdate: [&h.string(13)],
        },] 
        daylight: [{
            dtstart: h.string(14),
            comment: [format!("{}, {}", h.s(15), 1), h.params::<ikal::Text>(16),] 
            rrule: {
                by_second: [h.i8(17),],
                by_day: [h.weekday(18),],
                interval: h.u8(19) as u8,
            } 
            tzoffsetfrom: h.string(20),
        }, {
            tzoffsetfrom: h.s(21),
            tzoffsetto: h.s(22) 
            dtstart: &h.string(23),
            comment: [h.string(24)],
            rdate: [],
            x_prop: h.todo(25).x_prop 
            rrule: h.string(26),
            tzname: [h.params::<ikal::Text>(27)],
            iana_prop: h.todo(28).x_prop,
        }, {
            tzoffsetto: &h.string(29),
            rrule: {
                by_weekno: [h.i8(30)],
                by_hour: [h.i8(31)] 
            },
            dtstart: h.s(32),
            iana_prop: h.todo(33).x_prop,
        },],
        x_prop: h.todo(34).x_prop,
        iana_prop: h.todo(35).x_prop 
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VTimezone, ikal::Error> { Ok(ikal::VTimezone { tzid: ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(0), 1)).to_string() }, last_modified: Some((h.s(1)).parse::<ikal::DateTime>()?), tzurl: Some(ikal::Uri { params: Default::default(), uri: (format!("{}, {}", h.s(2), 1)).to_string() }), standard: vec![ikal::vtimezone::Standard { iana_prop: h.todo(3).x_prop, tzoffsetfrom: (h.s(4)).parse::<chrono::FixedOffset>()?, rdate: vec![(h.string(5)).parse::<ikal::RDate>()?], ..Default::default() }, ikal::vtimezone::Standard { tzoffsetfrom: (h.s(6)).parse::<chrono::FixedOffset>()?, ..Default::default() }, ikal::vtimezone::Standard { iana_prop: h.todo(7).x_prop, x_prop: h.todo(8).x_prop, dtstart: (h.s(9)).parse::<ikal::Date>()?, ..Default::default() }, ikal::vtimezone::Standard { tzoffsetfrom: (h.s(10)).parse::<chrono::FixedOffset>()?, iana_prop: h.todo(11).x_prop, dtstart: (h.string(12)).parse::<ikal::Date>()?, rdate: vec![(h.string(13)).parse::<ikal::RDate>()?], ..Default::default() }], daylight: vec![ikal::vtimezone::Daylight { dtstart: (h.string(14)).parse::<ikal::Date>()?, comment: vec![ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(15), 1)).to_string() }, h.params::<ikal::Text>(16)], rrule: Some(ikal::Recur { by_second: vec![h.i8(17)], by_day: vec![h.weekday(18)], interval: h.u8(19) as u8, ..Default::default() }), tzoffsetfrom: (h.string(20)).parse::<chrono::FixedOffset>()?, ..Default::default() }, ikal::vtimezone::Daylight { tzoffsetfrom: (h.s(21)).parse::<chrono::FixedOffset>()?, tzoffsetto: (h.s(22)).parse::<chrono::FixedOffset>()?, dtstart: (h.string(23)).parse::<ikal::Date>()?, comment: vec![ikal::Text { params: Default::default(), text: (h.string(24)).to_string() }], rdate: vec![], x_prop: h.todo(25).x_prop, rrule: Some((h.string(26)).parse::<ikal::Recur>()?), tzname: vec![h.params::<ikal::Text>(27)], iana_prop: h.todo(28).x_prop, ..Default::default() }, ikal::vtimezone::Daylight { tzoffsetto: (h.string(29)).parse::<chrono::FixedOffset>()?, rrule: Some(ikal::Recur { by_weekno: vec![h.i8(30)], by_hour: vec![h.i8(31)], ..Default::default() }), dtstart: (h.s(32)).parse::<ikal::Date>()?, iana_prop: h.todo(33).x_prop, ..Default::default() }], x_prop: h.todo(34).x_prop, iana_prop: h.todo(35).x_prop, ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_63(h: &Holes) -> Outcome {
    let tzid_: ikal::Text = h.params::<ikal::Text>(0);
    let tzid = tzid_.clone();
    let last_modified_: Option<ikal::DateTime> = Some(h.parsed::<ikal::DateTime>(1));
    let last_modified = last_modified_.clone();
    let tzurl_: Option<ikal::Uri> = Some(h.params::<ikal::Uri>(2));
    let tzurl = tzurl_.clone();
    let standard_: Vec<ikal::vtimezone::Standard> = vec![h.parsed::<ikal::vtimezone::Standard>(3)];
    let standard = standard_.clone();
    let daylight_: Vec<ikal::vtimezone::Daylight> = vec![h.parsed::<ikal::vtimezone::Daylight>(4), h.parsed::<ikal::vtimezone::Daylight>(5), h.parsed::<ikal::vtimezone::Daylight>(6)];
    let daylight = daylight_.clone();
    let x_prop_: std::collections::BTreeMap<String, _> = h.todo(7).x_prop;
    let x_prop = x_prop_.clone();
    let iana_prop_: std::collections::BTreeMap<String, _> = h.todo(8).x_prop;
    let iana_prop = iana_prop_.clone();
    h.begin();
    let built = ikal::vtimezone! {
        tzid,
        last_modified,
        tzurl,
        standard,
        daylight,
        x_prop,
        iana_prop,
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VTimezone, ikal::Error> { Ok(ikal::VTimezone { tzid: tzid_, last_modified: last_modified_, tzurl: tzurl_, standard: standard_, daylight: daylight_, x_prop: x_prop_, iana_prop: iana_prop_, ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_64(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::vtimezone! {
        x_prop: h.todo(0).x_prop,
        tzid: format!("{}, {}", h.s(1), 1),
        iana_prop: h.todo(2).x_prop,
        tzurl: format!("{}, {}", h.s(3), 1),
        daylight: [{
            tzoffsetto: "0100",
            rdate: [h.s(4), &h.string(5), h.string(6),],
            tzoffsetfrom: h.s(7),
        }, {
            tzname: [],
            dtstart: h.s(8) 
        }, {
            rdate: [h.s(9), h.s(10), &h.string(11), h.string(12),],
            tzoffsetto: h.s(13),
            iana_prop: h.todo(14).x_prop,
        }, {
            dtstart: h.s(15),
            tzname: [h.string(16)],
            rrule: h.s(17),
        }, {
            rdate: [h.string(18)],
        },],
        last_modified: h.s(19),
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VTimezone, ikal::Error> { Ok(ikal::VTimezone { x_prop: h.todo(0).x_prop, tzid: ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(1), 1)).to_string() }, iana_prop: h.todo(2).x_prop, tzurl: Some(ikal::Uri { params: Default::default(), uri: (format!("{}, {}", h.s(3), 1)).to_string() }), daylight: vec![ikal::vtimezone::Daylight { tzoffsetto: ("0100").parse::<chrono::FixedOffset>()?, rdate: vec![(h.s(4)).parse::<ikal::RDate>()?, (h.string(5)).parse::<ikal::RDate>()?, (h.string(6)).parse::<ikal::RDate>()?], tzoffsetfrom: (h.s(7)).parse::<chrono::FixedOffset>()?, ..Default::default() }, ikal::vtimezone::Daylight { tzname: vec![], dtstart: (h.s(8)).parse::<ikal::Date>()?, ..Default::default() }, ikal::vtimezone::Daylight { rdate: vec![(h.s(9)).parse::<ikal::RDate>()?, (h.s(10)).parse::<ikal::RDate>()?, (h.string(11)).parse::<ikal::RDate>()?, (h.string(12)).parse::<ikal::RDate>()?], tzoffsetto: (h.s(13)).parse::<chrono::FixedOffset>()?, iana_prop: h.todo(14).x_prop, ..Default::default() }, ikal::vtimezone::Daylight { dtstart: (h.s(15)).parse::<ikal::Date>()?, tzname: vec![ikal::Text { params: Default::default(), text: (h.string(16)).to_string() }], rrule: Some((h.s(17)).parse::<ikal::Recur>()?), ..Default::default() }, ikal::vtimezone::Daylight { rdate: vec![(h.string(18)).parse::<ikal::RDate>()?], ..Default::default() }], last_modified: Some((h.s(19)).parse::<ikal::DateTime>()?), ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_65(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::vtimezone! {
        iana_prop: h.todo(0).x_prop,
        standard: [{
            iana_prop: h.todo(1).x_prop 
            tzoffsetfrom: h.string(2),
            dtstart: h.s(3),
            rdate: [h.s(4)] 
            tzoffsetto: h.s(5),
            tzname: [],
            comment: [format!("{}, {}", h.s(6), 1), format!("{}, {}", h.s(7), 1), h.params::<ikal::Text>(8), h.params::<ikal::Text>(9)],
            rrule: {
                by_second: [-1],
                interval: h.u8(10) as u8,
                by_weekno: [h.i8(11)],
            },
            x_prop: h.todo(12).x_prop 
        }],
        tzid: h.params::<ikal::Text>(13),
        last_modified: h.s(14),
        daylight: [{
            tzname: [h.s(15),],
            iana_prop: h.todo(16).x_prop,
            x_prop: h.todo(17).x_prop,
            tzoffsetfrom: h.s(18),
        }, {
            rdate: [&h.string(19), h.s(20), h.s(21)],
            iana_prop: h.todo(22).x_prop,
            x_prop: h.todo(23).x_prop,
            tzoffsetto: h.s(24),
        }, {
            iana_prop: h.todo(25).x_prop,
            tzname: [h.params::<ikal::Text>(26)],
        }, {
            rrule: "FREQ=NEVER",
            tzoffsetto: &h.string(27),
        }],
        tzurl: h.params::<ikal::Uri>(28) 
        x_prop: h.todo(29).x_prop,
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VTimezone, ikal::Error> { Ok(ikal::VTimezone { iana_prop: h.todo(0).x_prop, standard: vec![ikal::vtimezone::Standard { iana_prop: h.todo(1).x_prop, tzoffsetfrom: (h.string(2)).parse::<chrono::FixedOffset>()?, dtstart: (h.s(3)).parse::<ikal::Date>()?, rdate: vec![(h.s(4)).parse::<ikal::RDate>()?], tzoffsetto: (h.s(5)).parse::<chrono::FixedOffset>()?, tzname: vec![], comment: vec![ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(6), 1)).to_string() }, ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(7), 1)).to_string() }, h.params::<ikal::Text>(8), h.params::<ikal::Text>(9)], rrule: Some(ikal::Recur { by_second: vec![-1], interval: h.u8(10) as u8, by_weekno: vec![h.i8(11)], ..Default::default() }), x_prop: h.todo(12).x_prop, ..Default::default() }], tzid: h.params::<ikal::Text>(13), last_modified: Some((h.s(14)).parse::<ikal::DateTime>()?), daylight: vec![ikal::vtimezone::Daylight { tzname: vec![ikal::Text { params: Default::default(), text: (h.s(15)).to_string() }], iana_prop: h.todo(16).x_prop, x_prop: h.todo(17).x_prop, tzoffsetfrom: (h.s(18)).parse::<chrono::FixedOffset>()?, ..Default::default() }, ikal::vtimezone::Daylight { rdate: vec![(h.string(19)).parse::<ikal::RDate>()?, (h.s(20)).parse::<ikal::RDate>()?, (h.s(21)).parse::<ikal::RDate>()?], iana_prop: h.todo(22).x_prop, x_prop: h.todo(23).x_prop, tzoffsetto: (h.s(24)).parse::<chrono::FixedOffset>()?, ..Default::default() }, ikal::vtimezone::Daylight { iana_prop: h.todo(25).x_prop, tzname: vec![h.params::<ikal::Text>(26)], ..Default::default() }, ikal::vtimezone::Daylight { rrule: Some(("FREQ=NEVER").parse::<ikal::Recur>()?), tzoffsetto: (h.string(27)).parse::<chrono::FixedOffset>()?, ..Default::default() }], tzurl: Some(h.params::<ikal::Uri>(28)), x_prop: h.todo(29).x_prop, ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_66(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::vtimezone! {
        daylight: [{
            iana_prop: h.todo(0).x_prop,
            rdate: [&h.string(1)],
            tzname: [format!("{}, {}", h.s(2), 1), format!("{}, {}", h.s(3), 1), h.params::<ikal::Text>(4)],
            x_prop: h.todo(5).x_prop,
        }, {
            rrule: {
                by_day: [h.weekday(6), h.weekday(7), h.weekday(8),],
                by_second: [h.u8(9) as i8, -1, -1,],
            },
            iana_prop: h.todo(10).x_prop,
            tzoffsetfrom: h.s(11) 
            comment: [h.params::<ikal::Text>(12)],
        }],
        iana_prop: h.todo(13).x_prop,
        x_prop: h.todo(14).x_prop 
        tzid: h.s(15),
        standard: [{
            rrule: {
                by_day: [h.weekday(16)],
            },
            tzoffsetfrom: h.s(17),
            x_prop: h.todo(18).x_prop,
        }],
        last_modified: h.s(19),
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VTimezone, ikal::Error> { Ok(ikal::VTimezone { daylight: vec![ikal::vtimezone::Daylight { iana_prop: h.todo(0).x_prop, rdate: vec![(h.string(1)).parse::<ikal::RDate>()?], tzname: vec![ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(2), 1)).to_string() }, ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(3), 1)).to_string() }, h.params::<ikal::Text>(4)], x_prop: h.todo(5).x_prop, ..Default::default() }, ikal::vtimezone::Daylight { rrule: Some(ikal::Recur { by_day: vec![h.weekday(6), h.weekday(7), h.weekday(8)], by_second: vec![h.u8(9) as i8, -1, -1], ..Default::default() }), iana_prop: h.todo(10).x_prop, tzoffsetfrom: (h.s(11)).parse::<chrono::FixedOffset>()?, comment: vec![h.params::<ikal::Text>(12)], ..Default::default() }], iana_prop: h.todo(13).x_prop, x_prop: h.todo(14).x_prop, tzid: ikal::Text { params: Default::default(), text: (h.s(15)).to_string() }, standard: vec![ikal::vtimezone::Standard { rrule: Some(ikal::Recur { by_day: vec![h.weekday(16)], ..Default::default() }), tzoffsetfrom: (h.s(17)).parse::<chrono::FixedOffset>()?, x_prop: h.todo(18).x_prop, ..Default::default() }], last_modified: Some((h.s(19)).parse::<ikal::DateTime>()?), ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_67(h: &Holes) -> Outcome {
    let daylight_: Vec<ikal::vtimezone::Daylight> = vec![h.parsed::<ikal::vtimezone::Daylight>(1), h.parsed::<ikal::vtimezone::Daylight>(2), h.parsed::<ikal::vtimezone::Daylight>(3)];
    let daylight = daylight_.clone();
    let tzurl_: Option<ikal::Uri> = Some(h.params::<ikal::Uri>(24));
    let tzurl = tzurl_.clone();
    h.begin();
    let built = ikal::vtimezone! {
        iana_prop: h.todo(0).x_prop,
        daylight,
        x_prop: h.todo(4).x_prop,
        standard: [{
            iana_prop: h.todo(5).x_prop,
            tzname: [h.string(6)],
            rrule: h.s(7),
            tzoffsetto: h.s(8),
            rdate: [h.s(9),],
            dtstart: h.s(10),
            tzoffsetfrom: h.s(11) 
            x_prop: h.todo(12).x_prop,
            comment: [h.string(13)],
        }, {
            x_prop: h.todo(14).x_prop,
            rrule: {
                by_yearday: [0, h.i8(15), h.i8(16), h.i8(17), h.i8(18),],
                by_setpos: [0],
                by_hour: [h.i8(19)] 
                count: h.u8(20) 
            },
            rdate: [h.s(21), h.s(22), "20240229", "20240229", h.s(23),],
        }],
        tzid: "a, b; c",
        tzurl,
        last_modified: h.s(25),
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VTimezone, ikal::Error> { Ok(ikal::VTimezone { iana_prop: h.todo(0).x_prop, daylight: daylight_, x_prop: h.todo(4).x_prop, standard: vec![ikal::vtimezone::Standard { iana_prop: h.todo(5).x_prop, tzname: vec![ikal::Text { params: Default::default(), text: (h.string(6)).to_string() }], rrule: Some((h.s(7)).parse::<ikal::Recur>()?), tzoffsetto: (h.s(8)).parse::<chrono::FixedOffset>()?, rdate: vec![(h.s(9)).parse::<ikal::RDate>()?], dtstart: (h.s(10)).parse::<ikal::Date>()?, tzoffsetfrom: (h.s(11)).parse::<chrono::FixedOffset>()?, x_prop: h.todo(12).x_prop, comment: vec![ikal::Text { params: Default::default(), text: (h.string(13)).to_string() }], ..Default::default() }, ikal::vtimezone::Standard { x_prop: h.todo(14).x_prop, rrule: Some(ikal::Recur { by_yearday: vec![0, h.i8(15), h.i8(16), h.i8(17), h.i8(18)], by_setpos: vec![0], by_hour: vec![h.i8(19)], count: Some(h.u8(20)), ..Default::default() }), rdate: vec![(h.s(21)).parse::<ikal::RDate>()?, (h.s(22)).parse::<ikal::RDate>()?, ("20240229").parse::<ikal::RDate>()?, ("20240229").parse::<ikal::RDate>()?, (h.s(23)).parse::<ikal::RDate>()?], ..Default::default() }], tzid: ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }, tzurl: tzurl_, last_modified: Some((h.s(25)).parse::<ikal::DateTime>()?), ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_68(h: &Holes) -> Outcome {
    let daylight_: Vec<ikal::vtimezone::Daylight> = vec![h.parsed::<ikal::vtimezone::Daylight>(11), h.parsed::<ikal::vtimezone::Daylight>(12), h.parsed::<ikal::vtimezone::Daylight>(13)];
    let daylight = daylight_.clone();
    h.begin();
    let built = ikal::vtimezone! {
        tzurl: "a, b; c",
        standard: [{
            rdate: [h.s(0), h.s(1), "20240229", h.s(2), h.s(3),],
            iana_prop: h.todo(4).x_prop,
            tzoffsetto: &h.string(5),
            x_prop: h.todo(6).x_prop,
        }],
        x_prop: h.todo(7).x_prop,
        tzid: h.string(8) 
        iana_prop: h.todo(9).x_prop,
        last_modified: h.s(10),
        daylight,
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VTimezone, ikal::Error> { Ok(ikal::VTimezone { tzurl: Some(ikal::Uri { params: Default::default(), uri: ("a, b; c").to_string() }), standard: vec![ikal::vtimezone::Standard { rdate: vec![(h.s(0)).parse::<ikal::RDate>()?, (h.s(1)).parse::<ikal::RDate>()?, ("20240229").parse::<ikal::RDate>()?, (h.s(2)).parse::<ikal::RDate>()?, (h.s(3)).parse::<ikal::RDate>()?], iana_prop: h.todo(4).x_prop, tzoffsetto: (h.string(5)).parse::<chrono::FixedOffset>()?, x_prop: h.todo(6).x_prop, ..Default::default() }], x_prop: h.todo(7).x_prop, tzid: ikal::Text { params: Default::default(), text: (h.string(8)).to_string() }, iana_prop: h.todo(9).x_prop, last_modified: Some((h.s(10)).parse::<ikal::DateTime>()?), daylight: daylight_, ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_69(h: &Holes) -> Outcome {
    let standard_: Vec<ikal::vtimezone::Standard> = vec![h.parsed::<ikal::vtimezone::Standard>(0), h.parsed::<ikal::vtimezone::Standard>(1)];
    let standard = standard_.clone();
    h.begin();
    let built = ikal::vtimezone! {
        standard,
        iana_prop: h.todo(2).x_prop,
        tzurl: h.string(3),
        tzid: format!("{}, {}", h.s(4), 1),
        last_modified: h.s(5),
        daylight: [{
            rdate: [h.s(6), h.s(7), "20240229", h.s(8), h.s(9),],
            iana_prop: h.todo(10).x_prop,
            tzoffsetto: &h.string(11),
            tzoffsetfrom: h.s(12) 
        }, {
            comment: [h.s(13),],
            rdate: [h.s(14), &h.string(15),],
            x_prop: h.todo(16).x_prop,
            tzoffsetfrom: h.s(17),
            tzname: [h.params::<ikal::Text>(18), "a, b; c", h.string(19), h.string(20),],
            dtstart: h.s(21),
            tzoffsetto: h.s(22) 
            iana_prop: h.todo(23).x_prop,
            rrule: {
                freq: Yearly,
            },
        }, {
            rdate: [h.s(24)] 
            tzoffsetfrom: h.s(25) 
        }, {
            comment: [h.string(26)],
            x_prop: h.todo(27).x_prop,
        },],
        x_prop: h.todo(28).x_prop,
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VTimezone, ikal::Error> { Ok(ikal::VTimezone { standard: standard_, iana_prop: h.todo(2).x_prop, tzurl: Some(ikal::Uri { params: Default::default(), uri: (h.string(3)).to_string() }), tzid: ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(4), 1)).to_string() }, last_modified: Some((h.s(5)).parse::<ikal::DateTime>()?), daylight: vec![ikal::vtimezone::Daylight { rdate: vec![(h.s(6)).parse::<ikal::RDate>()?, (h.s(7)).parse::<ikal::RDate>()?, ("20240229").parse::<ikal::RDate>()?, (h.s(8)).parse::<ikal::RDate>()?, (h.s(9)).parse::<ikal::RDate>()?], iana_prop: h.todo(10).x_prop, tzoffsetto: (h.string(11)).parse::<chrono::FixedOffset>()?, tzoffsetfrom: (h.s(12)).parse::<chrono::FixedOffset>()?, ..Default::default() }, ikal::vtimezone::Daylight { comment: vec![ikal::Text { params: Default::default(), text: (h.s(13)).to_string() }], rdate: vec![(h.s(14)).parse::<ikal::RDate>()?, (h.string(15)).parse::<ikal::RDate>()?], x_prop: h.todo(16).x_prop, tzoffsetfrom: (h.s(17)).parse::<chrono::FixedOffset>()?, tzname: vec![h.params::<ikal::Text>(18), ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }, ikal::Text { params: Default::default(), text: (h.string(19)).to_string() }, ikal::Text { params: Default::default(), text: (h.string(20)).to_string() }], dtstart: (h.s(21)).parse::<ikal::Date>()?, tzoffsetto: (h.s(22)).parse::<chrono::FixedOffset>()?, iana_prop: h.todo(23).x_prop, rrule: Some(ikal::Recur { freq: ikal::Freq::Yearly, ..Default::default() }), ..Default::default() }, ikal::vtimezone::Daylight { rdate: vec![(h.s(24)).parse::<ikal::RDate>()?], tzoffsetfrom: (h.s(25)).parse::<chrono::FixedOffset>()?, ..Default::default() }, ikal::vtimezone::Daylight { comment: vec![ikal::Text { params: Default::default(), text: (h.string(26)).to_string() }], x_prop: h.todo(27).x_prop, ..Default::default() }], x_prop: h.todo(28).x_prop, ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_70(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::vcalendar! {
        prodid: h.s(0),
        version: h.s(1),
        calscale: ikal::Text::from(h.s(2)),
        method: ikal::Text::from(h.s(3)),
        alarms: [h.alarm(4),] 
        events: [{
            uid: h.params::<ikal::Text>(6),
            categories: [h.params::<ikal::Text>(7)] 
        },],
        freebusy: [h.parsed::<ikal::VFreebusy>(8),],
        journals: [h.parsed::<ikal::VJournal>(9),],
        todo: [h.parsed::<ikal::VTodo>(10),],
        timezones: [h.parsed::<ikal::VTimezone>(11),],
        x_prop: h.todo(12).x_prop,
        iana_prop: h.todo(13).x_prop,
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VCalendar, ikal::Error> { Ok(ikal::VCalendar { prodid: ikal::Text { params: Default::default(), text: (h.s(0)).to_string() }, version: ikal::Text { params: Default::default(), text: (h.s(1)).to_string() }, calscale: Some(ikal::Text::from(h.s(2))), method: Some(ikal::Text::from(h.s(3))), alarms: vec![ikal::VAlarm::from(h.alarm(4))], events: vec![ikal::VEvent { uid: h.params::<ikal::Text>(6), categories: vec![h.params::<ikal::Text>(7)], ..Default::default() }], freebusy: vec![h.parsed::<ikal::VFreebusy>(8)], journals: vec![h.parsed::<ikal::VJournal>(9)], todo: vec![h.parsed::<ikal::VTodo>(10)], timezones: vec![h.parsed::<ikal::VTimezone>(11)], x_prop: h.todo(12).x_prop, iana_prop: h.todo(13).x_prop, ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_71(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::vcalendar! {
        prodid: h.string(0),
        version: h.string(1) 
        calscale: Some(ikal::Text::from(h.s(2))) 
        method: Some(ikal::Text::from(h.s(3))),
        alarms: [h.audio(5)],
        events: [{
            uid: h.s(6),
            description: h.string(7),
            resources: [h.string(8)],
        }],
        freebusy: [h.parsed::<ikal::VFreebusy>(9)],
        journals: [h.parsed::<ikal::VJournal>(10)],
        todo: [h.parsed::<ikal::VTodo>(11)],
        timezones: [h.parsed::<ikal::VTimezone>(12)],
        x_prop: h.todo(13).x_prop,
        iana_prop: h.todo(14).x_prop,
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VCalendar, ikal::Error> { Ok(ikal::VCalendar { prodid: ikal::Text { params: Default::default(), text: (h.string(0)).to_string() }, version: ikal::Text { params: Default::default(), text: (h.string(1)).to_string() }, calscale: Some(ikal::Text::from(h.s(2))), method: Some(ikal::Text::from(h.s(3))), alarms: vec![ikal::VAlarm::from(h.audio(5))], events: vec![ikal::VEvent { uid: ikal::Text { params: Default::default(), text: (h.s(6)).to_string() }, description: Some(ikal::Text { params: Default::default(), text: (h.string(7)).to_string() }), resources: vec![ikal::Text { params: Default::default(), text: (h.string(8)).to_string() }], ..Default::default() }], freebusy: vec![h.parsed::<ikal::VFreebusy>(9)], journals: vec![h.parsed::<ikal::VJournal>(10)], todo: vec![h.parsed::<ikal::VTodo>(11)], timezones: vec![h.parsed::<ikal::VTimezone>(12)], x_prop: h.todo(13).x_prop, iana_prop: h.todo(14).x_prop, ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_72(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::vcalendar! {
        prodid: format!("{}, {}", h.s(0), 1),
        version: format!("{}, {}", h.s(1), 1),
        calscale: ikal::Text::from(h.s(2)),
        method: ikal::Text::from(h.s(3)),
        alarms: [h.alarm(4), h.audio(7)],
        events: [{
            dtstamp: h.s(8),
            created: h.s(9),
            priority: 0,
            geo: h.string(10) 
            dtend: h.s(11),
            rrule: "FREQ=WEEKLY;INTERVAL=2",
            comment: [format!("{}, {}", h.s(12), 1), format!("{}, {}", h.s(13), 1), h.params::<ikal::Text>(14),],
            attach: [h.string(15)],
            summary: h.params::<ikal::Text>(16),
            location: "a, b; c",
            rdate: [&h.string(17)],
            contact: [h.s(18),],
            related_to: [h.s(19),],
            categories: [h.params::<ikal::Text>(20), "a, b; c", "a, b; c", h.string(21), h.string(22),],
            dtstart: "20240229",
            resources: [h.string(23)],
            sequence: h.u8(24) as u32,
            status: Tentative,
            x_prop: h.todo(25).x_prop,
            organizer: format!("{}, {}", h.s(26), 1),
            iana_prop: h.todo(27).x_prop 
            last_modified: h.string(28),
            duration: &h.string(29),
            description: format!("{}, {}", h.s(30), 1),
            class: Private,
            uid: format!("{}, {}", h.s(31), 1),
            url: format!("{}, {}", h.s(32), 1),
            attendee: [format!("{}, {}", h.s(33), 1), format!("{}, {}", h.s(34), 1), h.params::<ikal::Uri>(35), h.params::<ikal::Uri>(36)],
            exdate: [h.s(37),],
            alarms: [h.alarm(38), h.audio(41), h.audio(43),],
            transp: Opaque,
            rstatus: [h.string(44), &h.string(45), {
                statcode: h.f32(46),
                statdesc: format!("{}, {}", h.s(47), 1) 
                extdata: format!("{}, {}", h.s(48), 1) 
            }],
            recurid: h.s(49),
        }, {
            exdate: [h.s(50),],
            recurid: h.s(51),
            dtstart: h.s(52) 
            organizer: h.params::<ikal::Uri>(53),
            dtstamp: h.s(54),
            comment: [h.s(55),],
            status: NeedsAction,
            priority: h.u8(56),
            alarms: [h.alarm(57), h.audio(60),],
            geo: h.s(61),
            categories: [],
            iana_prop: h.todo(62).x_prop,
            attendee: [format!("{}, {}", h.s(63), 1), format!("{}, {}", h.s(64), 1), h.params::<ikal::Uri>(65),] 
            x_prop: h.todo(66).x_prop,
            created: h.s(67),
            attach: [],
            class: Public,
            summary: format!("{}, {}", h.s(68), 1),
            dtend: h.s(69),
            uid: format!("{}, {}", h.s(70), 1) 
            location: h.params::<ikal::Text>(71) 
            rstatus: [{
                statdesc: h.s(72),
                statcode: h.f32(73),
            }, "Success", "2.0;Success", {
                statcode: 1.5,
                extdata: format!("{}, {}", h.s(74), 1),
            }, {
                statcode: h.f32(75),
                statdesc: format!("{}, {}", h.s(76), 1),
                extdata: "a, b; c" 
            },],
            related_to: [h.string(77)],
            sequence: h.u32(78),
            last_modified: h.s(79),
            description: h.string(80),
            duration: &h.string(81),
            resources: [format!("{}, {}", h.s(82), 1), h.params::<ikal::Text>(83), h.params::<ikal::Text>(84),],
            rrule: "FREQ=NEVER",
            transp: Transparent,
            contact: [h.string(85)],
            url: h.string(86),
            rdate: [&h.string(87)],
        }],
        freebusy: [h.parsed::<ikal::VFreebusy>(88), h.parsed::<ikal::VFreebusy>(89), h.parsed::<ikal::VFreebusy>(90), h.parsed::<ikal::VFreebusy>(91)],
        journals: [h.parsed::<ikal::VJournal>(92), h.parsed::<ikal::VJournal>(93), h.parsed::<ikal::VJournal>(94)] 
        todo: [h.parsed::<ikal::VTodo>(95), h.parsed::<ikal::VTodo>(96), h.parsed::<ikal::VTodo>(97)] 
        timezones: [h.parsed::<ikal::VTimezone>(98), h.parsed::<ikal::VTimezone>(99)],
        x_prop: h.todo(100).x_prop,
        iana_prop: h.todo(101).x_prop 
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VCalendar, ikal::Error> { Ok(ikal::VCalendar { prodid: ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(0), 1)).to_string() }, version: ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(1), 1)).to_string() }, calscale: Some(ikal::Text::from(h.s(2))), method: Some(ikal::Text::from(h.s(3))), alarms: vec![ikal::VAlarm::from(h.alarm(4)), ikal::VAlarm::from(h.audio(7))], events: vec![ikal::VEvent { dtstamp: (h.s(8)).parse::<ikal::DateTime>()?, created: Some((h.s(9)).parse::<ikal::DateTime>()?), priority: Some(0), geo: Some((h.string(10)).parse::<ikal::Geo>()?), dtend: Some((h.s(11)).parse::<ikal::Date>()?), rrule: Some(("FREQ=WEEKLY;INTERVAL=2").parse::<ikal::Recur>()?), comment: vec![ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(12), 1)).to_string() }, ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(13), 1)).to_string() }, h.params::<ikal::Text>(14)], attach: vec![ikal::Text { params: Default::default(), text: (h.string(15)).to_string() }], summary: Some(h.params::<ikal::Text>(16)), location: Some(ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }), rdate: vec![(h.string(17)).parse::<ikal::RDate>()?], contact: vec![ikal::Text { params: Default::default(), text: (h.s(18)).to_string() }], related_to: vec![ikal::Text { params: Default::default(), text: (h.s(19)).to_string() }], categories: vec![h.params::<ikal::Text>(20), ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }, ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }, ikal::Text { params: Default::default(), text: (h.string(21)).to_string() }, ikal::Text { params: Default::default(), text: (h.string(22)).to_string() }], dtstart: ("20240229").parse::<ikal::Date>()?, resources: vec![ikal::Text { params: Default::default(), text: (h.string(23)).to_string() }], sequence: Some(h.u8(24) as u32), status: Some(ikal::Status::Tentative), x_prop: h.todo(25).x_prop, organizer: Some(ikal::Uri { params: Default::default(), uri: (format!("{}, {}", h.s(26), 1)).to_string() }), iana_prop: h.todo(27).x_prop, last_modified: Some((h.string(28)).parse::<ikal::DateTime>()?), duration: Some(ikal::parse_duration(&h.string(29))?), description: Some(ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(30), 1)).to_string() }), class: Some(ikal::Class::Private), uid: ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(31), 1)).to_string() }, url: Some(ikal::Uri { params: Default::default(), uri: (format!("{}, {}", h.s(32), 1)).to_string() }), attendee: vec![ikal::Uri { params: Default::default(), uri: (format!("{}, {}", h.s(33), 1)).to_string() }, ikal::Uri { params: Default::default(), uri: (format!("{}, {}", h.s(34), 1)).to_string() }, h.params::<ikal::Uri>(35), h.params::<ikal::Uri>(36)], exdate: vec![(h.s(37)).parse::<ikal::Date>()?], alarms: vec![ikal::VAlarm::from(h.alarm(38)), ikal::VAlarm::from(h.audio(41)), ikal::VAlarm::from(h.audio(43))], transp: Some(ikal::TimeTransparency::Opaque), rstatus: vec![(h.string(44)).parse::<ikal::RequestStatus>()?, (h.string(45)).parse::<ikal::RequestStatus>()?, ikal::RequestStatus { statcode: h.f32(46), statdesc: (format!("{}, {}", h.s(47), 1)).to_string(), extdata: Some((format!("{}, {}", h.s(48), 1)).to_string()), ..Default::default() }], recurid: Some((h.s(49)).parse::<ikal::Date>()?), ..Default::default() }, ikal::VEvent { exdate: vec![(h.s(50)).parse::<ikal::Date>()?], recurid: Some((h.s(51)).parse::<ikal::Date>()?), dtstart: (h.s(52)).parse::<ikal::Date>()?, organizer: Some(h.params::<ikal::Uri>(53)), dtstamp: (h.s(54)).parse::<ikal::DateTime>()?, comment: vec![ikal::Text { params: Default::default(), text: (h.s(55)).to_string() }], status: Some(ikal::Status::NeedsAction), priority: Some(h.u8(56)), alarms: vec![ikal::VAlarm::from(h.alarm(57)), ikal::VAlarm::from(h.audio(60))], geo: Some((h.s(61)).parse::<ikal::Geo>()?), categories: vec![], iana_prop: h.todo(62).x_prop, attendee: vec![ikal::Uri { params: Default::default(), uri: (format!("{}, {}", h.s(63), 1)).to_string() }, ikal::Uri { params: Default::default(), uri: (format!("{}, {}", h.s(64), 1)).to_string() }, h.params::<ikal::Uri>(65)], x_prop: h.todo(66).x_prop, created: Some((h.s(67)).parse::<ikal::DateTime>()?), attach: vec![], class: Some(ikal::Class::Public), summary: Some(ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(68), 1)).to_string() }), dtend: Some((h.s(69)).parse::<ikal::Date>()?), uid: ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(70), 1)).to_string() }, location: Some(h.params::<ikal::Text>(71)), rstatus: vec![ikal::RequestStatus { statdesc: (h.s(72)).to_string(), statcode: h.f32(73), ..Default::default() }, ("Success").parse::<ikal::RequestStatus>()?, ("2.0;Success").parse::<ikal::RequestStatus>()?, ikal::RequestStatus { statcode: 1.5, extdata: Some((format!("{}, {}", h.s(74), 1)).to_string()), ..Default::default() }, ikal::RequestStatus { statcode: h.f32(75), statdesc: (format!("{}, {}", h.s(76), 1)).to_string(), extdata: Some(("a, b; c").to_string()), ..Default::default() }], related_to: vec![ikal::Text { params: Default::default(), text: (h.string(77)).to_string() }], sequence: Some(h.u32(78)), last_modified: Some((h.s(79)).parse::<ikal::DateTime>()?), description: Some(ikal::Text { params: Default::default(), text: (h.string(80)).to_string() }), duration: Some(ikal::parse_duration(&h.string(81))?), resources: vec![ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(82), 1)).to_string() }, h.params::<ikal::Text>(83), h.params::<ikal::Text>(84)], rrule: Some(("FREQ=NEVER").parse::<ikal::Recur>()?), transp: Some(ikal::TimeTransparency::Transparent), contact: vec![ikal::Text { params: Default::default(), text: (h.string(85)).to_string() }], url: Some(ikal::Uri { params: Default::default(), uri: (h.string(86)).to_string() }), rdate: vec![(h.string(87)).parse::<ikal::RDate>()?], ..Default::default() }], freebusy: vec![h.parsed::<ikal::VFreebusy>(88), h.parsed::<ikal::VFreebusy>(89), h.parsed::<ikal::VFreebusy>(90), h.parsed::<ikal::VFreebusy>(91)], journals: vec![h.parsed::<ikal::VJournal>(92), h.parsed::<ikal::VJournal>(93), h.parsed::<ikal::VJournal>(94)], todo: vec![h.parsed::<ikal::VTodo>(95), h.parsed::<ikal::VTodo>(96), h.parsed::<ikal::VTodo>(97)], timezones: vec![h.parsed::<ikal::VTimezone>(98), h.parsed::<ikal::VTimezone>(99)], x_prop: h.todo(100).x_prop, iana_prop: h.todo(101).x_prop, ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_73(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::vcalendar! {
        prodid: h.params::<ikal::Text>(0),
        version: h.params::<ikal::Text>(1),
        calscale: Some(ikal::Text::from(h.s(2))),
        method: Some(ikal::Text::from(h.s(3))),
        alarms: [h.audio(5), h.alarm(6), h.audio(9), h.audio(11),],
        events: [{
            categories: [],
        }, {
            last_modified: "20240331",
            sequence: 7,
            rrule: h.s(12),
            dtend: h.s(13),
        }, {
            uid: format!("{}, {}", h.s(14), 1),
        }, {
            exdate: [h.s(15), h.string(16),],
            attach: [h.params::<ikal::Text>(17), h.params::<ikal::Text>(18), "a, b; c", h.string(19),],
            url: h.string(20),
        }, {
            exdate: [&h.string(21)],
        },],
        freebusy: [h.parsed::<ikal::VFreebusy>(22), h.parsed::<ikal::VFreebusy>(23), h.parsed::<ikal::VFreebusy>(24), h.parsed::<ikal::VFreebusy>(25), h.parsed::<ikal::VFreebusy>(26),],
        journals: [h.parsed::<ikal::VJournal>(27), h.parsed::<ikal::VJournal>(28), h.parsed::<ikal::VJournal>(29), h.parsed::<ikal::VJournal>(30), h.parsed::<ikal::VJournal>(31),],
        todo: [h.parsed::<ikal::VTodo>(32), h.parsed::<ikal::VTodo>(33), h.parsed::<ikal::VTodo>(34), h.parsed::<ikal::VTodo>(35), h.parsed::<ikal::VTodo>(36),],
        timezones: [h.parsed::<ikal::VTimezone>(37), h.parsed::<ikal::VTimezone>(38), h.parsed::<ikal::VTimezone>(39), h.parsed::<ikal::VTimezone>(40), h.parsed::<ikal::VTimezone>(41),],
        x_prop: h.todo(42).x_prop,
        iana_prop: h.todo(43).x_prop 
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VCalendar, ikal::Error> { Ok(ikal::VCalendar { prodid: h.params::<ikal::Text>(0), version: h.params::<ikal::Text>(1), calscale: Some(ikal::Text::from(h.s(2))), method: Some(ikal::Text::from(h.s(3))), alarms: vec![ikal::VAlarm::from(h.audio(5)), ikal::VAlarm::from(h.alarm(6)), ikal::VAlarm::from(h.audio(9)), ikal::VAlarm::from(h.audio(11))], events: vec![ikal::VEvent { categories: vec![], ..Default::default() }, ikal::VEvent { last_modified: Some(("20240331").parse::<ikal::DateTime>()?), sequence: Some(7), rrule: Some((h.s(12)).parse::<ikal::Recur>()?), dtend: Some((h.s(13)).parse::<ikal::Date>()?), ..Default::default() }, ikal::VEvent { uid: ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(14), 1)).to_string() }, ..Default::default() }, ikal::VEvent { exdate: vec![(h.s(15)).parse::<ikal::Date>()?, (h.string(16)).parse::<ikal::Date>()?], attach: vec![h.params::<ikal::Text>(17), h.params::<ikal::Text>(18), ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }, ikal::Text { params: Default::default(), text: (h.string(19)).to_string() }], url: Some(ikal::Uri { params: Default::default(), uri: (h.string(20)).to_string() }), ..Default::default() }, ikal::VEvent { exdate: vec![(h.string(21)).parse::<ikal::Date>()?], ..Default::default() }], freebusy: vec![h.parsed::<ikal::VFreebusy>(22), h.parsed::<ikal::VFreebusy>(23), h.parsed::<ikal::VFreebusy>(24), h.parsed::<ikal::VFreebusy>(25), h.parsed::<ikal::VFreebusy>(26)], journals: vec![h.parsed::<ikal::VJournal>(27), h.parsed::<ikal::VJournal>(28), h.parsed::<ikal::VJournal>(29), h.parsed::<ikal::VJournal>(30), h.parsed::<ikal::VJournal>(31)], todo: vec![h.parsed::<ikal::VTodo>(32), h.parsed::<ikal::VTodo>(33), h.parsed::<ikal::VTodo>(34), h.parsed::<ikal::VTodo>(35), h.parsed::<ikal::VTodo>(36)], timezones: vec![h.parsed::<ikal::VTimezone>(37), h.parsed::<ikal::VTimezone>(38), h.parsed::<ikal::VTimezone>(39), h.parsed::<ikal::VTimezone>(40), h.parsed::<ikal::VTimezone>(41)], x_prop: h.todo(42).x_prop, iana_prop: h.todo(43).x_prop, ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_74(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::vcalendar! {
        prodid: "a, b; c",
        version: "a, b; c",
        calscale: ikal::Text::from(h.s(0)) 
        method: ikal::Text::from(h.s(1)),
        alarms: [] 
        events: [] 
        freebusy: [],
        journals: [],
        todo: [],
        timezones: [],
        x_prop: h.todo(2).x_prop,
        iana_prop: h.todo(3).x_prop,
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VCalendar, ikal::Error> { Ok(ikal::VCalendar { prodid: ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }, version: ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }, calscale: Some(ikal::Text::from(h.s(0))), method: Some(ikal::Text::from(h.s(1))), alarms: vec![], events: vec![], freebusy: vec![], journals: vec![], todo: vec![], timezones: vec![], x_prop: h.todo(2).x_prop, iana_prop: h.todo(3).x_prop, ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_75(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::vcalendar! {
        prodid: h.string(0),
        version: h.string(1),
        calscale: Some(ikal::Text::from(h.s(2))),
        method: Some(ikal::Text::from(h.s(3))),
        alarms: [h.audio(5)],
        events: [{
            categories: [format!("{}, {}", h.s(6), 1), h.params::<ikal::Text>(7),],
            x_prop: h.todo(8).x_prop,
            url: format!("{}, {}", h.s(9), 1),
        }],
        freebusy: [h.parsed::<ikal::VFreebusy>(10)],
        journals: [h.parsed::<ikal::VJournal>(11)],
        todo: [h.parsed::<ikal::VTodo>(12)],
        timezones: [h.parsed::<ikal::VTimezone>(13)],
        x_prop: h.todo(14).x_prop,
        iana_prop: h.todo(15).x_prop,
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VCalendar, ikal::Error> { Ok(ikal::VCalendar { prodid: ikal::Text { params: Default::default(), text: (h.string(0)).to_string() }, version: ikal::Text { params: Default::default(), text: (h.string(1)).to_string() }, calscale: Some(ikal::Text::from(h.s(2))), method: Some(ikal::Text::from(h.s(3))), alarms: vec![ikal::VAlarm::from(h.audio(5))], events: vec![ikal::VEvent { categories: vec![ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(6), 1)).to_string() }, h.params::<ikal::Text>(7)], x_prop: h.todo(8).x_prop, url: Some(ikal::Uri { params: Default::default(), uri: (format!("{}, {}", h.s(9), 1)).to_string() }), ..Default::default() }], freebusy: vec![h.parsed::<ikal::VFreebusy>(10)], journals: vec![h.parsed::<ikal::VJournal>(11)], todo: vec![h.parsed::<ikal::VTodo>(12)], timezones: vec![h.parsed::<ikal::VTimezone>(13)], x_prop: h.todo(14).x_prop, iana_prop: h.todo(15).x_prop, ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_76(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::vcalendar! {
        prodid: format!("{}, {}", h.s(0), 1) 
        version: format!("{}, {}", h.s(1), 1),
        calscale: ikal::Text::from(h.s(2)),
        method: ikal::Text::from(h.s(3)),
        alarms: [h.alarm(4), h.audio(7),],
        events: [{
            transp: Opaque,
        }, {
            x_prop: h.todo(8).x_prop,
        },],
        freebusy: [h.parsed::<ikal::VFreebusy>(9), h.parsed::<ikal::VFreebusy>(10), h.parsed::<ikal::VFreebusy>(11),],
        journals: [h.parsed::<ikal::VJournal>(12), h.parsed::<ikal::VJournal>(13),],
        todo: [h.parsed::<ikal::VTodo>(14), h.parsed::<ikal::VTodo>(15),],
        timezones: [h.parsed::<ikal::VTimezone>(16), h.parsed::<ikal::VTimezone>(17), h.parsed::<ikal::VTimezone>(18),],
        x_prop: h.todo(19).x_prop,
        iana_prop: h.todo(20).x_prop,
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VCalendar, ikal::Error> { Ok(ikal::VCalendar { prodid: ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(0), 1)).to_string() }, version: ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(1), 1)).to_string() }, calscale: Some(ikal::Text::from(h.s(2))), method: Some(ikal::Text::from(h.s(3))), alarms: vec![ikal::VAlarm::from(h.alarm(4)), ikal::VAlarm::from(h.audio(7))], events: vec![ikal::VEvent { transp: Some(ikal::TimeTransparency::Opaque), ..Default::default() }, ikal::VEvent { x_prop: h.todo(8).x_prop, ..Default::default() }], freebusy: vec![h.parsed::<ikal::VFreebusy>(9), h.parsed::<ikal::VFreebusy>(10), h.parsed::<ikal::VFreebusy>(11)], journals: vec![h.parsed::<ikal::VJournal>(12), h.parsed::<ikal::VJournal>(13)], todo: vec![h.parsed::<ikal::VTodo>(14), h.parsed::<ikal::VTodo>(15)], timezones: vec![h.parsed::<ikal::VTimezone>(16), h.parsed::<ikal::VTimezone>(17), h.parsed::<ikal::VTimezone>(18)], x_prop: h.todo(19).x_prop, iana_prop: h.todo(20).x_prop, ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_77(h: &Holes) -> Outcome {
    let prodid_: ikal::Text = h.params::<ikal::Text>(0);
    let prodid = prodid_.clone();
    let version_: ikal::Text = h.params::<ikal::Text>(1);
    let version = version_.clone();
    let calscale_: Option<ikal::Text> = None;
    let calscale = calscale_.clone();
    let method_: Option<ikal::Text> = None;
    let method = method_.clone();
    let alarms_: Vec<ikal::VAlarm> = vec![ikal::VAlarm::from(h.audio(5)), ikal::VAlarm::from(h.audio(7))];
    let alarms = alarms_.clone();
    let events_: Vec<ikal::VEvent> = vec![h.parsed::<ikal::VEvent>(8), h.parsed::<ikal::VEvent>(9), h.parsed::<ikal::VEvent>(10)];
    let events = events_.clone();
    let freebusy_: Vec<ikal::VFreebusy> = vec![h.parsed::<ikal::VFreebusy>(11)];
    let freebusy = freebusy_.clone();
    let journals_: Vec<ikal::VJournal> = vec![h.parsed::<ikal::VJournal>(12), h.parsed::<ikal::VJournal>(13)];
    let journals = journals_.clone();
    let todo_: Vec<ikal::VTodo> = vec![h.parsed::<ikal::VTodo>(14), h.parsed::<ikal::VTodo>(15), h.parsed::<ikal::VTodo>(16)];
    let todo = todo_.clone();
    let timezones_: Vec<ikal::VTimezone> = vec![h.parsed::<ikal::VTimezone>(17), h.parsed::<ikal::VTimezone>(18), h.parsed::<ikal::VTimezone>(19)];
    let timezones = timezones_.clone();
    let x_prop_: std::collections::BTreeMap<String, _> = h.todo(20).x_prop;
    let x_prop = x_prop_.clone();
    let iana_prop_: std::collections::BTreeMap<String, _> = h.todo(21).x_prop;
    let iana_prop = iana_prop_.clone();
    h.begin();
    let built = ikal::vcalendar! {
        prodid,
        version,
        calscale,
        method,
        alarms,
        events,
        freebusy,
        journals,
        todo,
        timezones,
        x_prop,
        iana_prop,
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VCalendar, ikal::Error> { Ok(ikal::VCalendar { prodid: prodid_, version: version_, calscale: calscale_, method: method_, alarms: alarms_, events: events_, freebusy: freebusy_, journals: journals_, todo: todo_, timezones: timezones_, x_prop: x_prop_, iana_prop: iana_prop_, ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_78(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::vcalendar! {
        iana_prop: h.todo(0).x_prop,
        prodid: "a, b; c",
        events: [{
            priority: h.u8(1),
        },],
        journals: [h.parsed::<ikal::VJournal>(2)],
        calscale: ikal::Text::from(h.s(3)),
        freebusy: [h.parsed::<ikal::VFreebusy>(4), h.parsed::<ikal::VFreebusy>(5), h.parsed::<ikal::VFreebusy>(6),],
        x_prop: h.todo(7).x_prop 
        alarms: [h.alarm(8), h.alarm(10), h.audio(13),] 
        method: ikal::Text::from(h.s(14)) 
        timezones: [h.parsed::<ikal::VTimezone>(15), h.parsed::<ikal::VTimezone>(16),],
        todo: [h.parsed::<ikal::VTodo>(17)] 
        version: h.s(18),
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VCalendar, ikal::Error> { Ok(ikal::VCalendar { iana_prop: h.todo(0).x_prop, prodid: ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }, events: vec![ikal::VEvent { priority: Some(h.u8(1)), ..Default::default() }], journals: vec![h.parsed::<ikal::VJournal>(2)], calscale: Some(ikal::Text::from(h.s(3))), freebusy: vec![h.parsed::<ikal::VFreebusy>(4), h.parsed::<ikal::VFreebusy>(5), h.parsed::<ikal::VFreebusy>(6)], x_prop: h.todo(7).x_prop, alarms: vec![ikal::VAlarm::from(h.alarm(8)), ikal::VAlarm::from(h.alarm(10)), ikal::VAlarm::from(h.audio(13))], method: Some(ikal::Text::from(h.s(14))), timezones: vec![h.parsed::<ikal::VTimezone>(15), h.parsed::<ikal::VTimezone>(16)], todo: vec![h.parsed::<ikal::VTodo>(17)], version: ikal::Text { params: Default::default(), text: (h.s(18)).to_string() }, ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_79(h: &Holes) -> Outcome {
    let x_prop_: std::collections::BTreeMap<String, _> = h.todo(17).x_prop;
    let x_prop = x_prop_.clone();
    h.begin();
    let built = ikal::vcalendar! {
        method: ikal::Text::from(h.s(0)),
        alarms: [h.audio(2), h.audio(4), h.alarm(5), h.alarm(7), h.audio(10), h.audio(12),],
        todo: [h.parsed::<ikal::VTodo>(13),],
        iana_prop: h.todo(14).x_prop,
        events: [{
            transp: Transparent,
        }],
        timezones: [h.parsed::<ikal::VTimezone>(15)],
        freebusy: [h.parsed::<ikal::VFreebusy>(16)],
        x_prop,
        calscale: ikal::Text::from(h.s(18)),
        journals: [h.parsed::<ikal::VJournal>(19), h.parsed::<ikal::VJournal>(20), h.parsed::<ikal::VJournal>(21)] 
        prodid: h.s(22),
        version: format!("{}, {}", h.s(23), 1),
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VCalendar, ikal::Error> { Ok(ikal::VCalendar { method: Some(ikal::Text::from(h.s(0))), alarms: vec![ikal::VAlarm::from(h.audio(2)), ikal::VAlarm::from(h.audio(4)), ikal::VAlarm::from(h.alarm(5)), ikal::VAlarm::from(h.alarm(7)), ikal::VAlarm::from(h.audio(10)), ikal::VAlarm::from(h.audio(12))], todo: vec![h.parsed::<ikal::VTodo>(13)], iana_prop: h.todo(14).x_prop, events: vec![ikal::VEvent { transp: Some(ikal::TimeTransparency::Transparent), ..Default::default() }], timezones: vec![h.parsed::<ikal::VTimezone>(15)], freebusy: vec![h.parsed::<ikal::VFreebusy>(16)], x_prop: x_prop_, calscale: Some(ikal::Text::from(h.s(18))), journals: vec![h.parsed::<ikal::VJournal>(19), h.parsed::<ikal::VJournal>(20), h.parsed::<ikal::VJournal>(21)], prodid: ikal::Text { params: Default::default(), text: (h.s(22)).to_string() }, version: ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(23), 1)).to_string() }, ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_80(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::vcalendar! {
        freebusy: [h.parsed::<ikal::VFreebusy>(0),],
        method: ikal::Text::from(h.s(1)),
        alarms: [h.audio(3)],
        prodid: "a, b; c",
        journals: [h.parsed::<ikal::VJournal>(4),],
        version: h.string(5),
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VCalendar, ikal::Error> { Ok(ikal::VCalendar { freebusy: vec![h.parsed::<ikal::VFreebusy>(0)], method: Some(ikal::Text::from(h.s(1))), alarms: vec![ikal::VAlarm::from(h.audio(3))], prodid: ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }, journals: vec![h.parsed::<ikal::VJournal>(4)], version: ikal::Text { params: Default::default(), text: (h.string(5)).to_string() }, ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_81(h: &Holes) -> Outcome {
    let journals_: Vec<ikal::VJournal> = vec![h.parsed::<ikal::VJournal>(0)];
    let journals = journals_.clone();
    let iana_prop_: std::collections::BTreeMap<String, _> = h.todo(9).x_prop;
    let iana_prop = iana_prop_.clone();
    h.begin();
    let built = ikal::vcalendar! {
        journals,
        version: format!("{}, {}", h.s(1), 1),
        x_prop: h.todo(2).x_prop 
        freebusy: [h.parsed::<ikal::VFreebusy>(3),],
        method: ikal::Text::from(h.s(4)),
        prodid: format!("{}, {}", h.s(5), 1),
        alarms: [],
        events: [{
            attendee: [h.s(6),],
            x_prop: h.todo(7).x_prop,
        },],
        calscale: Some(ikal::Text::from(h.s(8))),
        iana_prop,
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VCalendar, ikal::Error> { Ok(ikal::VCalendar { journals: journals_, version: ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(1), 1)).to_string() }, x_prop: h.todo(2).x_prop, freebusy: vec![h.parsed::<ikal::VFreebusy>(3)], method: Some(ikal::Text::from(h.s(4))), prodid: ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(5), 1)).to_string() }, alarms: vec![], events: vec![ikal::VEvent { attendee: vec![ikal::Uri { params: Default::default(), uri: (h.s(6)).to_string() }], x_prop: h.todo(7).x_prop, ..Default::default() }], calscale: Some(ikal::Text::from(h.s(8))), iana_prop: iana_prop_, ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_82(h: &Holes) -> Outcome {
    let events_: Vec<ikal::VEvent> = vec![h.parsed::<ikal::VEvent>(2), h.parsed::<ikal::VEvent>(3), h.parsed::<ikal::VEvent>(4)];
    let events = events_.clone();
    h.begin();
    let built = ikal::vcalendar! {
        freebusy: [],
        iana_prop: h.todo(0).x_prop,
        version: format!("{}, {}", h.s(1), 1) 
        events,
        journals: [h.parsed::<ikal::VJournal>(5),],
        prodid: h.params::<ikal::Text>(6) 
        todo: [],
        timezones: [h.parsed::<ikal::VTimezone>(7), h.parsed::<ikal::VTimezone>(8), h.parsed::<ikal::VTimezone>(9)],
        x_prop: h.todo(10).x_prop 
        method: Some(ikal::Text::from(h.s(11))),
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VCalendar, ikal::Error> { Ok(ikal::VCalendar { freebusy: vec![], iana_prop: h.todo(0).x_prop, version: ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(1), 1)).to_string() }, events: events_, journals: vec![h.parsed::<ikal::VJournal>(5)], prodid: h.params::<ikal::Text>(6), todo: vec![], timezones: vec![h.parsed::<ikal::VTimezone>(7), h.parsed::<ikal::VTimezone>(8), h.parsed::<ikal::VTimezone>(9)], x_prop: h.todo(10).x_prop, method: Some(ikal::Text::from(h.s(11))), ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_83(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::vcalendar! {
        journals: [h.parsed::<ikal::VJournal>(0)],
        version: h.string(1) 
        todo: [h.parsed::<ikal::VTodo>(2), h.parsed::<ikal::VTodo>(3)] 
        calscale: ikal::Text::from(h.s(4)),
        freebusy: [],
        method: ikal::Text::from(h.s(5)),
        prodid: format!("{}, {}", h.s(6), 1),
        timezones: [],
        events: [{
            location: format!("{}, {}", h.s(7), 1),
            categories: [format!("{}, {}", h.s(8), 1), h.params::<ikal::Text>(9), h.params::<ikal::Text>(10),],
        },] 
        iana_prop: h.todo(11).x_prop,
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VCalendar, ikal::Error> { Ok(ikal::VCalendar { journals: vec![h.parsed::<ikal::VJournal>(0)], version: ikal::Text { params: Default::default(), text: (h.string(1)).to_string() }, todo: vec![h.parsed::<ikal::VTodo>(2), h.parsed::<ikal::VTodo>(3)], calscale: Some(ikal::Text::from(h.s(4))), freebusy: vec![], method: Some(ikal::Text::from(h.s(5))), prodid: ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(6), 1)).to_string() }, timezones: vec![], events: vec![ikal::VEvent { location: Some(ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(7), 1)).to_string() }), categories: vec![ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(8), 1)).to_string() }, h.params::<ikal::Text>(9), h.params::<ikal::Text>(10)], ..Default::default() }], iana_prop: h.todo(11).x_prop, ..Default::default() }) })();
    compare(built, wanted, given, h.begin())
}

fn case_84(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::valarm! {
        @audio,
        trigger: h.s(0),
        duration: h.s(1),
        repeat: h.u32(2) 
        x_prop: h.todo(3).x_prop,
        iana_prop: h.todo(4).x_prop,
        attach: [h.s(5),],
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VAlarm, ikal::Error> { Ok(ikal::VAlarm::Audio(ikal::valarm::Audio { trigger: (h.s(0)).parse::<ikal::Trigger>()?, duration: Some(ikal::parse_duration(h.s(1))?), repeat: Some(h.u32(2)), x_prop: h.todo(3).x_prop, iana_prop: h.todo(4).x_prop, attach: vec![ikal::Text { params: Default::default(), text: (h.s(5)).to_string() }], action: ikal::Text::from("AUDIO"), ..Default::default() })) })();
    compare(built, wanted, given, h.begin())
}

fn case_85(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::valarm! {
        @audio,
        trigger: h.s(0),
        duration: h.s(1),
        repeat: h.u32(2),
        x_prop: h.todo(3).x_prop,
        iana_prop: h.todo(4).x_prop,
        attach: [h.string(5)],
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VAlarm, ikal::Error> { Ok(ikal::VAlarm::Audio(ikal::valarm::Audio { trigger: (h.s(0)).parse::<ikal::Trigger>()?, duration: Some(ikal::parse_duration(h.s(1))?), repeat: Some(h.u32(2)), x_prop: h.todo(3).x_prop, iana_prop: h.todo(4).x_prop, attach: vec![ikal::Text { params: Default::default(), text: (h.string(5)).to_string() }], action: ikal::Text::from("AUDIO"), ..Default::default() })) })();
    compare(built, wanted, given, h.begin())
}

fn case_86(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::valarm! {
        @audio,
        trigger: h.string(0),
        duration: &h.string(1),
        repeat: h.u8(2) as u32 
        x_prop: h.todo(3).x_prop,
        iana_prop: h.todo(4).x_prop 
        attach: [format!("{}, {}", h.s(5), 1), h.params::<ikal::Text>(6)],
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VAlarm, ikal::Error> { Ok(ikal::VAlarm::Audio(ikal::valarm::Audio { trigger: (h.string(0)).parse::<ikal::Trigger>()?, duration: Some(ikal::parse_duration(&h.string(1))?), repeat: Some(h.u8(2) as u32), x_prop: h.todo(3).x_prop, iana_prop: h.todo(4).x_prop, attach: vec![ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(5), 1)).to_string() }, h.params::<ikal::Text>(6)], action: ikal::Text::from("AUDIO"), ..Default::default() })) })();
    compare(built, wanted, given, h.begin())
}

fn case_87(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::valarm! {
        @audio,
        trigger: h.s(0),
        duration: h.s(1) 
        repeat: 1 + 2,
        x_prop: h.todo(2).x_prop,
        iana_prop: h.todo(3).x_prop 
        attach: [h.params::<ikal::Text>(4), "a, b; c", h.string(5),] 
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VAlarm, ikal::Error> { Ok(ikal::VAlarm::Audio(ikal::valarm::Audio { trigger: (h.s(0)).parse::<ikal::Trigger>()?, duration: Some(ikal::parse_duration(h.s(1))?), repeat: Some(1 + 2), x_prop: h.todo(2).x_prop, iana_prop: h.todo(3).x_prop, attach: vec![h.params::<ikal::Text>(4), ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }, ikal::Text { params: Default::default(), text: (h.string(5)).to_string() }], action: ikal::Text::from("AUDIO"), ..Default::default() })) })();
    compare(built, wanted, given, h.begin())
}

fn case_88(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::valarm! {
        @audio,
        trigger: "-PT15M",
        duration: "P1DT2H" 
        repeat: h.u32(0),
        x_prop: h.todo(1).x_prop,
        iana_prop: h.todo(2).x_prop 
        attach: [],
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VAlarm, ikal::Error> { Ok(ikal::VAlarm::Audio(ikal::valarm::Audio { trigger: ("-PT15M").parse::<ikal::Trigger>()?, duration: Some(ikal::parse_duration("P1DT2H")?), repeat: Some(h.u32(0)), x_prop: h.todo(1).x_prop, iana_prop: h.todo(2).x_prop, attach: vec![], action: ikal::Text::from("AUDIO"), ..Default::default() })) })();
    compare(built, wanted, given, h.begin())
}

fn case_89(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::valarm! {
        @audio,
        trigger: h.s(0),
        duration: h.s(1) 
        repeat: h.u32(2),
        x_prop: h.todo(3).x_prop,
        iana_prop: h.todo(4).x_prop,
        attach: [h.string(5)],
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VAlarm, ikal::Error> { Ok(ikal::VAlarm::Audio(ikal::valarm::Audio { trigger: (h.s(0)).parse::<ikal::Trigger>()?, duration: Some(ikal::parse_duration(h.s(1))?), repeat: Some(h.u32(2)), x_prop: h.todo(3).x_prop, iana_prop: h.todo(4).x_prop, attach: vec![ikal::Text { params: Default::default(), text: (h.string(5)).to_string() }], action: ikal::Text::from("AUDIO"), ..Default::default() })) })();
    compare(built, wanted, given, h.begin())
}

fn case_90(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::valarm! {
        @audio,
        trigger: h.s(0),
        duration: h.s(1),
        repeat: h.u8(2) as u32,
        x_prop: h.todo(3).x_prop,
        iana_prop: h.todo(4).x_prop,
        attach: [format!("{}, {}", h.s(5), 1), h.params::<ikal::Text>(6), h.params::<ikal::Text>(7),],
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VAlarm, ikal::Error> { Ok(ikal::VAlarm::Audio(ikal::valarm::Audio { trigger: (h.s(0)).parse::<ikal::Trigger>()?, duration: Some(ikal::parse_duration(h.s(1))?), repeat: Some(h.u8(2) as u32), x_prop: h.todo(3).x_prop, iana_prop: h.todo(4).x_prop, attach: vec![ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(5), 1)).to_string() }, h.params::<ikal::Text>(6), h.params::<ikal::Text>(7)], action: ikal::Text::from("AUDIO"), ..Default::default() })) })();
    compare(built, wanted, given, h.begin())
}

fn case_91(h: &Holes) -> Outcome {
    let trigger_: ikal::Trigger = h.parsed::<ikal::Trigger>(0);
    let trigger = trigger_.clone();
    let duration_: Option<chrono::TimeDelta> = Some(h.length(1));
    let duration = duration_.clone();
    let repeat_: Option<u32> = None;
    let repeat = repeat_.clone();
    let x_prop_: std::collections::BTreeMap<String, _> = h.todo(3).x_prop;
    let x_prop = x_prop_.clone();
    let iana_prop_: std::collections::BTreeMap<String, _> = h.todo(4).x_prop;
    let iana_prop = iana_prop_.clone();
    let attach_: Vec<ikal::Text> = vec![h.params::<ikal::Text>(5), h.params::<ikal::Text>(6)];
    let attach = attach_.clone();
    h.begin();
    let built = ikal::valarm! {
        @audio,
        trigger,
        duration,
        repeat,
        x_prop,
        iana_prop,
        attach,
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VAlarm, ikal::Error> { Ok(ikal::VAlarm::Audio(ikal::valarm::Audio { trigger: trigger_, duration: duration_, repeat: repeat_, x_prop: x_prop_, iana_prop: iana_prop_, attach: attach_, action: ikal::Text::from("AUDIO"), ..Default::default() })) })();
    compare(built, wanted, given, h.begin())
}

fn case_92(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::valarm! {
        @audio,
        duration: h.s(0),
        attach: [h.params::<ikal::Text>(1), "a, b; c", h.string(2),],
        repeat: h.u32(3) 
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VAlarm, ikal::Error> { Ok(ikal::VAlarm::Audio(ikal::valarm::Audio { duration: Some(ikal::parse_duration(h.s(0))?), attach: vec![h.params::<ikal::Text>(1), ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }, ikal::Text { params: Default::default(), text: (h.string(2)).to_string() }], repeat: Some(h.u32(3)), action: ikal::Text::from("AUDIO"), ..Default::default() })) })();
    compare(built, wanted, given, h.begin())
}

fn case_93(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::valarm! {
        @audio,
        iana_prop: h.todo(0).x_prop,
        attach: [h.params::<ikal::Text>(1), "a, b; c", "a, b; c", h.string(2),],
        trigger: h.s(3),
        x_prop: h.todo(4).x_prop,
        duration: h.s(5),
        repeat: 7,
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VAlarm, ikal::Error> { Ok(ikal::VAlarm::Audio(ikal::valarm::Audio { iana_prop: h.todo(0).x_prop, attach: vec![h.params::<ikal::Text>(1), ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }, ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }, ikal::Text { params: Default::default(), text: (h.string(2)).to_string() }], trigger: (h.s(3)).parse::<ikal::Trigger>()?, x_prop: h.todo(4).x_prop, duration: Some(ikal::parse_duration(h.s(5))?), repeat: Some(7), action: ikal::Text::from("AUDIO"), ..Default::default() })) })();
    compare(built, wanted, given, h.begin())
}

fn case_94(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::valarm! {
        @audio,
        attach: [h.s(0),],
        repeat: h.u8(1) as u32,
        x_prop: h.todo(2).x_prop,
        iana_prop: h.todo(3).x_prop,
        duration: h.s(4),
        trigger: h.s(5),
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VAlarm, ikal::Error> { Ok(ikal::VAlarm::Audio(ikal::valarm::Audio { attach: vec![ikal::Text { params: Default::default(), text: (h.s(0)).to_string() }], repeat: Some(h.u8(1) as u32), x_prop: h.todo(2).x_prop, iana_prop: h.todo(3).x_prop, duration: Some(ikal::parse_duration(h.s(4))?), trigger: (h.s(5)).parse::<ikal::Trigger>()?, action: ikal::Text::from("AUDIO"), ..Default::default() })) })();
    compare(built, wanted, given, h.begin())
}

fn case_95(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::valarm! {
        @audio,
        repeat: 0,
        x_prop: h.todo(0).x_prop,
        trigger: h.s(1),
        attach: [],
        iana_prop: h.todo(2).x_prop,
        duration: "1D",
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VAlarm, ikal::Error> { Ok(ikal::VAlarm::Audio(ikal::valarm::Audio { repeat: Some(0), x_prop: h.todo(0).x_prop, trigger: (h.s(1)).parse::<ikal::Trigger>()?, attach: vec![], iana_prop: h.todo(2).x_prop, duration: Some(ikal::parse_duration("1D")?), action: ikal::Text::from("AUDIO"), ..Default::default() })) })();
    compare(built, wanted, given, h.begin())
}

fn case_96(h: &Holes) -> Outcome {
    let iana_prop_: std::collections::BTreeMap<String, _> = h.todo(7).x_prop;
    let iana_prop = iana_prop_.clone();
    h.begin();
    let built = ikal::valarm! {
        @audio,
        duration: h.s(0),
        x_prop: h.todo(1).x_prop,
        attach: [h.params::<ikal::Text>(2), h.params::<ikal::Text>(3), "a, b; c", h.string(4), h.string(5),] 
        trigger: "-PT15M",
        repeat: h.u32(6),
        iana_prop,
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VAlarm, ikal::Error> { Ok(ikal::VAlarm::Audio(ikal::valarm::Audio { duration: Some(ikal::parse_duration(h.s(0))?), x_prop: h.todo(1).x_prop, attach: vec![h.params::<ikal::Text>(2), h.params::<ikal::Text>(3), ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }, ikal::Text { params: Default::default(), text: (h.string(4)).to_string() }, ikal::Text { params: Default::default(), text: (h.string(5)).to_string() }], trigger: ("-PT15M").parse::<ikal::Trigger>()?, repeat: Some(h.u32(6)), iana_prop: iana_prop_, action: ikal::Text::from("AUDIO"), ..Default::default() })) })();
    compare(built, wanted, given, h.begin())
}

fn case_97(h: &Holes) -> Outcome {
    let trigger_: ikal::Trigger = h.parsed::<ikal::Trigger>(0);
    let trigger = trigger_.clone();
    h.begin();
    let built = ikal::valarm! {
        @audio,
        trigger,
        duration: &h.string(1),
        x_prop: h.todo(2).x_prop,
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VAlarm, ikal::Error> { Ok(ikal::VAlarm::Audio(ikal::valarm::Audio { trigger: trigger_, duration: Some(ikal::parse_duration(&h.string(1))?), x_prop: h.todo(2).x_prop, action: ikal::Text::from("AUDIO"), ..Default::default() })) })();
    compare(built, wanted, given, h.begin())
}

fn case_98(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::valarm! {
        @display,
        trigger: h.s(0),
        duration: h.s(1),
        repeat: h.u32(2),
        x_prop: h.todo(3).x_prop,
        iana_prop: h.todo(4).x_prop,
        description: h.s(5) 
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VAlarm, ikal::Error> { Ok(ikal::VAlarm::Display(ikal::valarm::Display { trigger: (h.s(0)).parse::<ikal::Trigger>()?, duration: Some(ikal::parse_duration(h.s(1))?), repeat: Some(h.u32(2)), x_prop: h.todo(3).x_prop, iana_prop: h.todo(4).x_prop, description: ikal::Text { params: Default::default(), text: (h.s(5)).to_string() }, action: ikal::Text::from("DISPLAY"), ..Default::default() })) })();
    compare(built, wanted, given, h.begin())
}

fn case_99(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::valarm! {
        @display,
        trigger: h.s(0),
        duration: h.s(1),
        repeat: h.u32(2) 
        x_prop: h.todo(3).x_prop,
        iana_prop: h.todo(4).x_prop,
        description: h.string(5),
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VAlarm, ikal::Error> { Ok(ikal::VAlarm::Display(ikal::valarm::Display { trigger: (h.s(0)).parse::<ikal::Trigger>()?, duration: Some(ikal::parse_duration(h.s(1))?), repeat: Some(h.u32(2)), x_prop: h.todo(3).x_prop, iana_prop: h.todo(4).x_prop, description: ikal::Text { params: Default::default(), text: (h.string(5)).to_string() }, action: ikal::Text::from("DISPLAY"), ..Default::default() })) })();
    compare(built, wanted, given, h.begin())
}

fn case_100(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::valarm! {
        @display,
        trigger: h.string(0),
        duration: &h.string(1),
        repeat: h.u8(2) as u32,
        x_prop: h.todo(3).x_prop,
        iana_prop: h.todo(4).x_prop,
        description: format!("{}, {}", h.s(5), 1),
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VAlarm, ikal::Error> { Ok(ikal::VAlarm::Display(ikal::valarm::Display { trigger: (h.string(0)).parse::<ikal::Trigger>()?, duration: Some(ikal::parse_duration(&h.string(1))?), repeat: Some(h.u8(2) as u32), x_prop: h.todo(3).x_prop, iana_prop: h.todo(4).x_prop, description: ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(5), 1)).to_string() }, action: ikal::Text::from("DISPLAY"), ..Default::default() })) })();
    compare(built, wanted, given, h.begin())
}

fn case_101(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::valarm! {
        @display,
        trigger: h.s(0),
        duration: h.s(1),
        repeat: 0,
        x_prop: h.todo(2).x_prop,
        iana_prop: h.todo(3).x_prop,
        description: h.params::<ikal::Text>(4),
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VAlarm, ikal::Error> { Ok(ikal::VAlarm::Display(ikal::valarm::Display { trigger: (h.s(0)).parse::<ikal::Trigger>()?, duration: Some(ikal::parse_duration(h.s(1))?), repeat: Some(0), x_prop: h.todo(2).x_prop, iana_prop: h.todo(3).x_prop, description: h.params::<ikal::Text>(4), action: ikal::Text::from("DISPLAY"), ..Default::default() })) })();
    compare(built, wanted, given, h.begin())
}

fn case_102(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::valarm! {
        @display,
        trigger: "noon",
        duration: "P1DT2H",
        repeat: h.u32(0),
        x_prop: h.todo(1).x_prop,
        iana_prop: h.todo(2).x_prop 
        description: "a, b; c",
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VAlarm, ikal::Error> { Ok(ikal::VAlarm::Display(ikal::valarm::Display { trigger: ("noon").parse::<ikal::Trigger>()?, duration: Some(ikal::parse_duration("P1DT2H")?), repeat: Some(h.u32(0)), x_prop: h.todo(1).x_prop, iana_prop: h.todo(2).x_prop, description: ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }, action: ikal::Text::from("DISPLAY"), ..Default::default() })) })();
    compare(built, wanted, given, h.begin())
}

fn case_103(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::valarm! {
        @display,
        trigger: h.s(0),
        duration: h.s(1),
        repeat: h.u32(2),
        x_prop: h.todo(3).x_prop,
        iana_prop: h.todo(4).x_prop 
        description: h.string(5),
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VAlarm, ikal::Error> { Ok(ikal::VAlarm::Display(ikal::valarm::Display { trigger: (h.s(0)).parse::<ikal::Trigger>()?, duration: Some(ikal::parse_duration(h.s(1))?), repeat: Some(h.u32(2)), x_prop: h.todo(3).x_prop, iana_prop: h.todo(4).x_prop, description: ikal::Text { params: Default::default(), text: (h.string(5)).to_string() }, action: ikal::Text::from("DISPLAY"), ..Default::default() })) })();
    compare(built, wanted, given, h.begin())
}

fn case_104(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::valarm! {
        @display,
        trigger: h.s(0),
        duration: h.s(1),
        repeat: h.u8(2) as u32,
        x_prop: h.todo(3).x_prop,
        iana_prop: h.todo(4).x_prop,
        description: format!("{}, {}", h.s(5), 1),
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VAlarm, ikal::Error> { Ok(ikal::VAlarm::Display(ikal::valarm::Display { trigger: (h.s(0)).parse::<ikal::Trigger>()?, duration: Some(ikal::parse_duration(h.s(1))?), repeat: Some(h.u8(2) as u32), x_prop: h.todo(3).x_prop, iana_prop: h.todo(4).x_prop, description: ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(5), 1)).to_string() }, action: ikal::Text::from("DISPLAY"), ..Default::default() })) })();
    compare(built, wanted, given, h.begin())
}

fn case_105(h: &Holes) -> Outcome {
    let trigger_: ikal::Trigger = h.parsed::<ikal::Trigger>(0);
    let trigger = trigger_.clone();
    let duration_: Option<chrono::TimeDelta> = Some(h.length(1));
    let duration = duration_.clone();
    let repeat_: Option<u32> = None;
    let repeat = repeat_.clone();
    let x_prop_: std::collections::BTreeMap<String, _> = h.todo(3).x_prop;
    let x_prop = x_prop_.clone();
    let iana_prop_: std::collections::BTreeMap<String, _> = h.todo(4).x_prop;
    let iana_prop = iana_prop_.clone();
    let description_: ikal::Text = h.params::<ikal::Text>(5);
    let description = description_.clone();
    h.begin();
    let built = ikal::valarm! {
        @display,
        trigger,
        duration,
        repeat,
        x_prop,
        iana_prop,
        description,
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VAlarm, ikal::Error> { Ok(ikal::VAlarm::Display(ikal::valarm::Display { trigger: trigger_, duration: duration_, repeat: repeat_, x_prop: x_prop_, iana_prop: iana_prop_, description: description_, action: ikal::Text::from("DISPLAY"), ..Default::default() })) })();
    compare(built, wanted, given, h.begin())
}

fn case_106(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::valarm! {
        @display,
        duration: h.s(0),
        trigger: h.s(1),
        iana_prop: h.todo(2).x_prop,
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VAlarm, ikal::Error> { Ok(ikal::VAlarm::Display(ikal::valarm::Display { duration: Some(ikal::parse_duration(h.s(0))?), trigger: (h.s(1)).parse::<ikal::Trigger>()?, iana_prop: h.todo(2).x_prop, action: ikal::Text::from("DISPLAY"), ..Default::default() })) })();
    compare(built, wanted, given, h.begin())
}

fn case_107(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::valarm! {
        @display,
        iana_prop: h.todo(0).x_prop 
        duration: h.s(1),
        trigger: h.s(2),
        repeat: 0,
        x_prop: h.todo(3).x_prop,
        description: h.string(4),
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VAlarm, ikal::Error> { Ok(ikal::VAlarm::Display(ikal::valarm::Display { iana_prop: h.todo(0).x_prop, duration: Some(ikal::parse_duration(h.s(1))?), trigger: (h.s(2)).parse::<ikal::Trigger>()?, repeat: Some(0), x_prop: h.todo(3).x_prop, description: ikal::Text { params: Default::default(), text: (h.string(4)).to_string() }, action: ikal::Text::from("DISPLAY"), ..Default::default() })) })();
    compare(built, wanted, given, h.begin())
}

fn case_108(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::valarm! {
        @display,
        iana_prop: h.todo(0).x_prop 
        duration: h.s(1),
        repeat: h.u8(2) as u32,
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VAlarm, ikal::Error> { Ok(ikal::VAlarm::Display(ikal::valarm::Display { iana_prop: h.todo(0).x_prop, duration: Some(ikal::parse_duration(h.s(1))?), repeat: Some(h.u8(2) as u32), action: ikal::Text::from("DISPLAY"), ..Default::default() })) })();
    compare(built, wanted, given, h.begin())
}

fn case_109(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::valarm! {
        @display,
        trigger: h.s(0) 
        x_prop: h.todo(1).x_prop,
        description: h.params::<ikal::Text>(2),
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VAlarm, ikal::Error> { Ok(ikal::VAlarm::Display(ikal::valarm::Display { trigger: (h.s(0)).parse::<ikal::Trigger>()?, x_prop: h.todo(1).x_prop, description: h.params::<ikal::Text>(2), action: ikal::Text::from("DISPLAY"), ..Default::default() })) })();
    compare(built, wanted, given, h.begin())
}

fn case_110(h: &Holes) -> Outcome {
    let duration_: Option<chrono::TimeDelta> = Some(h.length(1));
    let duration = duration_.clone();
    h.begin();
    let built = ikal::valarm! {
        @display,
        iana_prop: h.todo(0).x_prop,
        trigger: "noon",
        duration,
        repeat: 7 
        description: format!("{}, {}", h.s(2), 1) 
        x_prop: h.todo(3).x_prop 
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VAlarm, ikal::Error> { Ok(ikal::VAlarm::Display(ikal::valarm::Display { iana_prop: h.todo(0).x_prop, trigger: ("noon").parse::<ikal::Trigger>()?, duration: duration_, repeat: Some(7), description: ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(2), 1)).to_string() }, x_prop: h.todo(3).x_prop, action: ikal::Text::from("DISPLAY"), ..Default::default() })) })();
    compare(built, wanted, given, h.begin())
}

fn case_111(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::valarm! {
        @display,
        x_prop: h.todo(0).x_prop,
        description: "a, b; c",
        iana_prop: h.todo(1).x_prop,
        trigger: "-PT15M",
        repeat: h.u8(2) as u32,
        duration: h.s(3),
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VAlarm, ikal::Error> { Ok(ikal::VAlarm::Display(ikal::valarm::Display { x_prop: h.todo(0).x_prop, description: ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }, iana_prop: h.todo(1).x_prop, trigger: ("-PT15M").parse::<ikal::Trigger>()?, repeat: Some(h.u8(2) as u32), duration: Some(ikal::parse_duration(h.s(3))?), action: ikal::Text::from("DISPLAY"), ..Default::default() })) })();
    compare(built, wanted, given, h.begin())
}

fn case_112(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::valarm! {
        @email,
        trigger: h.s(0),
        duration: h.s(1),
        repeat: h.u32(2),
        x_prop: h.todo(3).x_prop,
        iana_prop: h.todo(4).x_prop,
        description: h.s(5) 
        summary: h.s(6),
        attendee: [h.s(7),],
        attach: [h.s(8),],
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VAlarm, ikal::Error> { Ok(ikal::VAlarm::Email(ikal::valarm::Email { trigger: (h.s(0)).parse::<ikal::Trigger>()?, duration: Some(ikal::parse_duration(h.s(1))?), repeat: Some(h.u32(2)), x_prop: h.todo(3).x_prop, iana_prop: h.todo(4).x_prop, description: ikal::Text { params: Default::default(), text: (h.s(5)).to_string() }, summary: ikal::Text { params: Default::default(), text: (h.s(6)).to_string() }, attendee: vec![ikal::Uri { params: Default::default(), uri: (h.s(7)).to_string() }], attach: vec![ikal::Text { params: Default::default(), text: (h.s(8)).to_string() }], action: ikal::Text::from("EMAIL"), ..Default::default() })) })();
    compare(built, wanted, given, h.begin())
}

fn case_113(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::valarm! {
        @email,
        trigger: h.s(0),
        duration: h.s(1) 
        repeat: h.u32(2),
        x_prop: h.todo(3).x_prop 
        iana_prop: h.todo(4).x_prop,
        description: h.string(5),
        summary: h.string(6),
        attendee: [h.string(7)] 
        attach: [h.string(8)],
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VAlarm, ikal::Error> { Ok(ikal::VAlarm::Email(ikal::valarm::Email { trigger: (h.s(0)).parse::<ikal::Trigger>()?, duration: Some(ikal::parse_duration(h.s(1))?), repeat: Some(h.u32(2)), x_prop: h.todo(3).x_prop, iana_prop: h.todo(4).x_prop, description: ikal::Text { params: Default::default(), text: (h.string(5)).to_string() }, summary: ikal::Text { params: Default::default(), text: (h.string(6)).to_string() }, attendee: vec![ikal::Uri { params: Default::default(), uri: (h.string(7)).to_string() }], attach: vec![ikal::Text { params: Default::default(), text: (h.string(8)).to_string() }], action: ikal::Text::from("EMAIL"), ..Default::default() })) })();
    compare(built, wanted, given, h.begin())
}

fn case_114(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::valarm! {
        @email,
        trigger: h.string(0),
        duration: &h.string(1) 
        repeat: h.u8(2) as u32,
        x_prop: h.todo(3).x_prop,
        iana_prop: h.todo(4).x_prop,
        description: format!("{}, {}", h.s(5), 1),
        summary: format!("{}, {}", h.s(6), 1),
        attendee: [format!("{}, {}", h.s(7), 1), format!("{}, {}", h.s(8), 1), h.params::<ikal::Uri>(9), h.params::<ikal::Uri>(10)] 
        attach: [format!("{}, {}", h.s(11), 1), format!("{}, {}", h.s(12), 1), h.params::<ikal::Text>(13)],
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VAlarm, ikal::Error> { Ok(ikal::VAlarm::Email(ikal::valarm::Email { trigger: (h.string(0)).parse::<ikal::Trigger>()?, duration: Some(ikal::parse_duration(&h.string(1))?), repeat: Some(h.u8(2) as u32), x_prop: h.todo(3).x_prop, iana_prop: h.todo(4).x_prop, description: ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(5), 1)).to_string() }, summary: ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(6), 1)).to_string() }, attendee: vec![ikal::Uri { params: Default::default(), uri: (format!("{}, {}", h.s(7), 1)).to_string() }, ikal::Uri { params: Default::default(), uri: (format!("{}, {}", h.s(8), 1)).to_string() }, h.params::<ikal::Uri>(9), h.params::<ikal::Uri>(10)], attach: vec![ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(11), 1)).to_string() }, ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(12), 1)).to_string() }, h.params::<ikal::Text>(13)], action: ikal::Text::from("EMAIL"), ..Default::default() })) })();
    compare(built, wanted, given, h.begin())
}

fn case_115(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::valarm! {
        @email,
        trigger: h.s(0),
        duration: h.s(1) 
        repeat: 0,
        x_prop: h.todo(2).x_prop 
        iana_prop: h.todo(3).x_prop,
        description: h.params::<ikal::Text>(4) 
        summary: h.params::<ikal::Text>(5),
        attendee: [h.params::<ikal::Uri>(6), "a, b; c", h.string(7),],
        attach: [h.params::<ikal::Text>(8), "a, b; c", h.string(9),] 
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VAlarm, ikal::Error> { Ok(ikal::VAlarm::Email(ikal::valarm::Email { trigger: (h.s(0)).parse::<ikal::Trigger>()?, duration: Some(ikal::parse_duration(h.s(1))?), repeat: Some(0), x_prop: h.todo(2).x_prop, iana_prop: h.todo(3).x_prop, description: h.params::<ikal::Text>(4), summary: h.params::<ikal::Text>(5), attendee: vec![h.params::<ikal::Uri>(6), ikal::Uri { params: Default::default(), uri: ("a, b; c").to_string() }, ikal::Uri { params: Default::default(), uri: (h.string(7)).to_string() }], attach: vec![h.params::<ikal::Text>(8), ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }, ikal::Text { params: Default::default(), text: (h.string(9)).to_string() }], action: ikal::Text::from("EMAIL"), ..Default::default() })) })();
    compare(built, wanted, given, h.begin())
}

fn case_116(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::valarm! {
        @email,
        trigger: "-PT15M",
        duration: "-PT15M",
        repeat: h.u32(0),
        x_prop: h.todo(1).x_prop,
        iana_prop: h.todo(2).x_prop,
        description: "a, b; c",
        summary: "a, b; c",
        attendee: [],
        attach: [],
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VAlarm, ikal::Error> { Ok(ikal::VAlarm::Email(ikal::valarm::Email { trigger: ("-PT15M").parse::<ikal::Trigger>()?, duration: Some(ikal::parse_duration("-PT15M")?), repeat: Some(h.u32(0)), x_prop: h.todo(1).x_prop, iana_prop: h.todo(2).x_prop, description: ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }, summary: ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }, attendee: vec![], attach: vec![], action: ikal::Text::from("EMAIL"), ..Default::default() })) })();
    compare(built, wanted, given, h.begin())
}

fn case_117(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::valarm! {
        @email,
        trigger: h.s(0),
        duration: h.s(1),
        repeat: h.u32(2),
        x_prop: h.todo(3).x_prop 
        iana_prop: h.todo(4).x_prop,
        description: h.string(5),
        summary: h.string(6) 
        attendee: [h.string(7)] 
        attach: [h.string(8)],
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VAlarm, ikal::Error> { Ok(ikal::VAlarm::Email(ikal::valarm::Email { trigger: (h.s(0)).parse::<ikal::Trigger>()?, duration: Some(ikal::parse_duration(h.s(1))?), repeat: Some(h.u32(2)), x_prop: h.todo(3).x_prop, iana_prop: h.todo(4).x_prop, description: ikal::Text { params: Default::default(), text: (h.string(5)).to_string() }, summary: ikal::Text { params: Default::default(), text: (h.string(6)).to_string() }, attendee: vec![ikal::Uri { params: Default::default(), uri: (h.string(7)).to_string() }], attach: vec![ikal::Text { params: Default::default(), text: (h.string(8)).to_string() }], action: ikal::Text::from("EMAIL"), ..Default::default() })) })();
    compare(built, wanted, given, h.begin())
}

fn case_118(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::valarm! {
        @email,
        trigger: h.s(0),
        duration: h.s(1),
        repeat: h.u8(2) as u32,
        x_prop: h.todo(3).x_prop,
        iana_prop: h.todo(4).x_prop 
        description: format!("{}, {}", h.s(5), 1) 
        summary: format!("{}, {}", h.s(6), 1),
        attendee: [format!("{}, {}", h.s(7), 1), format!("{}, {}", h.s(8), 1), h.params::<ikal::Uri>(9),],
        attach: [format!("{}, {}", h.s(10), 1), format!("{}, {}", h.s(11), 1), h.params::<ikal::Text>(12),],
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VAlarm, ikal::Error> { Ok(ikal::VAlarm::Email(ikal::valarm::Email { trigger: (h.s(0)).parse::<ikal::Trigger>()?, duration: Some(ikal::parse_duration(h.s(1))?), repeat: Some(h.u8(2) as u32), x_prop: h.todo(3).x_prop, iana_prop: h.todo(4).x_prop, description: ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(5), 1)).to_string() }, summary: ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(6), 1)).to_string() }, attendee: vec![ikal::Uri { params: Default::default(), uri: (format!("{}, {}", h.s(7), 1)).to_string() }, ikal::Uri { params: Default::default(), uri: (format!("{}, {}", h.s(8), 1)).to_string() }, h.params::<ikal::Uri>(9)], attach: vec![ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(10), 1)).to_string() }, ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(11), 1)).to_string() }, h.params::<ikal::Text>(12)], action: ikal::Text::from("EMAIL"), ..Default::default() })) })();
    compare(built, wanted, given, h.begin())
}

fn case_119(h: &Holes) -> Outcome {
    let trigger_: ikal::Trigger = h.parsed::<ikal::Trigger>(0);
    let trigger = trigger_.clone();
    let duration_: Option<chrono::TimeDelta> = None;
    let duration = duration_.clone();
    let repeat_: Option<u32> = None;
    let repeat = repeat_.clone();
    let x_prop_: std::collections::BTreeMap<String, _> = h.todo(3).x_prop;
    let x_prop = x_prop_.clone();
    let iana_prop_: std::collections::BTreeMap<String, _> = h.todo(4).x_prop;
    let iana_prop = iana_prop_.clone();
    let description_: ikal::Text = h.params::<ikal::Text>(5);
    let description = description_.clone();
    let summary_: ikal::Text = h.params::<ikal::Text>(6);
    let summary = summary_.clone();
    let attendee_: Vec<ikal::Uri> = vec![h.params::<ikal::Uri>(7), h.params::<ikal::Uri>(8)];
    let attendee = attendee_.clone();
    let attach_: Vec<ikal::Text> = vec![h.params::<ikal::Text>(9), h.params::<ikal::Text>(10), h.params::<ikal::Text>(11)];
    let attach = attach_.clone();
    h.begin();
    let built = ikal::valarm! {
        @email,
        trigger,
        duration,
        repeat,
        x_prop,
        iana_prop,
        description,
        summary,
        attendee,
        attach,
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VAlarm, ikal::Error> { Ok(ikal::VAlarm::Email(ikal::valarm::Email { trigger: trigger_, duration: duration_, repeat: repeat_, x_prop: x_prop_, iana_prop: iana_prop_, description: description_, summary: summary_, attendee: attendee_, attach: attach_, action: ikal::Text::from("EMAIL"), ..Default::default() })) })();
    compare(built, wanted, given, h.begin())
}

fn case_120(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::valarm! {
        @email,
        trigger: h.s(0),
        summary: h.params::<ikal::Text>(1),
        iana_prop: h.todo(2).x_prop,
        attach: [format!("{}, {}", h.s(3), 1), format!("{}, {}", h.s(4), 1), h.params::<ikal::Text>(5), h.params::<ikal::Text>(6)],
        repeat: h.u32(7) 
        description: h.string(8),
        attendee: [],
        x_prop: h.todo(9).x_prop 
        duration: h.s(10),
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VAlarm, ikal::Error> { Ok(ikal::VAlarm::Email(ikal::valarm::Email { trigger: (h.s(0)).parse::<ikal::Trigger>()?, summary: h.params::<ikal::Text>(1), iana_prop: h.todo(2).x_prop, attach: vec![ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(3), 1)).to_string() }, ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(4), 1)).to_string() }, h.params::<ikal::Text>(5), h.params::<ikal::Text>(6)], repeat: Some(h.u32(7)), description: ikal::Text { params: Default::default(), text: (h.string(8)).to_string() }, attendee: vec![], x_prop: h.todo(9).x_prop, duration: Some(ikal::parse_duration(h.s(10))?), action: ikal::Text::from("EMAIL"), ..Default::default() })) })();
    compare(built, wanted, given, h.begin())
}

fn case_121(h: &Holes) -> Outcome {
    let duration_: Option<chrono::TimeDelta> = Some(h.length(4));
    let duration = duration_.clone();
    h.begin();
    let built = ikal::valarm! {
        @email,
        attach: [format!("{}, {}", h.s(0), 1), format!("{}, {}", h.s(1), 1), h.params::<ikal::Text>(2)],
        iana_prop: h.todo(3).x_prop,
        duration,
        trigger: h.s(5) 
        description: "a, b; c",
        x_prop: h.todo(6).x_prop,
        repeat: h.u8(7) as u32,
        attendee: [h.string(8)],
        summary: h.string(9),
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VAlarm, ikal::Error> { Ok(ikal::VAlarm::Email(ikal::valarm::Email { attach: vec![ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(0), 1)).to_string() }, ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(1), 1)).to_string() }, h.params::<ikal::Text>(2)], iana_prop: h.todo(3).x_prop, duration: duration_, trigger: (h.s(5)).parse::<ikal::Trigger>()?, description: ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }, x_prop: h.todo(6).x_prop, repeat: Some(h.u8(7) as u32), attendee: vec![ikal::Uri { params: Default::default(), uri: (h.string(8)).to_string() }], summary: ikal::Text { params: Default::default(), text: (h.string(9)).to_string() }, action: ikal::Text::from("EMAIL"), ..Default::default() })) })();
    compare(built, wanted, given, h.begin())
}

fn case_122(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::valarm! {
        @email,
        attendee: [h.string(0)] 
        repeat: h.u32(1),
        trigger: h.s(2),
        attach: [h.s(3),],
        summary: h.s(4),
        description: h.params::<ikal::Text>(5),
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VAlarm, ikal::Error> { Ok(ikal::VAlarm::Email(ikal::valarm::Email { attendee: vec![ikal::Uri { params: Default::default(), uri: (h.string(0)).to_string() }], repeat: Some(h.u32(1)), trigger: (h.s(2)).parse::<ikal::Trigger>()?, attach: vec![ikal::Text { params: Default::default(), text: (h.s(3)).to_string() }], summary: ikal::Text { params: Default::default(), text: (h.s(4)).to_string() }, description: h.params::<ikal::Text>(5), action: ikal::Text::from("EMAIL"), ..Default::default() })) })();
    compare(built, wanted, given, h.begin())
}

fn case_123(h: &Holes) -> Outcome {
    let repeat_: Option<u32> = Some(h.u32(0));
    let repeat = repeat_.clone();
    let duration_: Option<chrono::TimeDelta> = Some(h.length(1));
    let duration = duration_.clone();
    let summary_: ikal::Text = h.params::<ikal::Text>(2);
    let summary = summary_.clone();
    h.begin();
    let built = ikal::valarm! {
        @email,
        repeat,
        trigger: "noon",
        duration,
        summary,
        iana_prop: h.todo(3).x_prop,
        x_prop: h.todo(4).x_prop,
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VAlarm, ikal::Error> { Ok(ikal::VAlarm::Email(ikal::valarm::Email { repeat: repeat_, trigger: ("noon").parse::<ikal::Trigger>()?, duration: duration_, summary: summary_, iana_prop: h.todo(3).x_prop, x_prop: h.todo(4).x_prop, action: ikal::Text::from("EMAIL"), ..Default::default() })) })();
    compare(built, wanted, given, h.begin())
}

fn case_124(h: &Holes) -> Outcome {
    h.begin();
    let built = ikal::valarm! {
        @email,
        attendee: [h.string(0)],
        attach: [h.params::<ikal::Text>(1), h.params::<ikal::Text>(2), "a, b; c", h.string(3), h.string(4),] 
        iana_prop: h.todo(5).x_prop 
        trigger: h.s(6),
        duration: h.s(7),
        description: h.params::<ikal::Text>(8),
        repeat: h.u32(9),
        summary: "a, b; c",
        x_prop: h.todo(10).x_prop,
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VAlarm, ikal::Error> { Ok(ikal::VAlarm::Email(ikal::valarm::Email { attendee: vec![ikal::Uri { params: Default::default(), uri: (h.string(0)).to_string() }], attach: vec![h.params::<ikal::Text>(1), h.params::<ikal::Text>(2), ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }, ikal::Text { params: Default::default(), text: (h.string(3)).to_string() }, ikal::Text { params: Default::default(), text: (h.string(4)).to_string() }], iana_prop: h.todo(5).x_prop, trigger: (h.s(6)).parse::<ikal::Trigger>()?, duration: Some(ikal::parse_duration(h.s(7))?), description: h.params::<ikal::Text>(8), repeat: Some(h.u32(9)), summary: ikal::Text { params: Default::default(), text: ("a, b; c").to_string() }, x_prop: h.todo(10).x_prop, action: ikal::Text::from("EMAIL"), ..Default::default() })) })();
    compare(built, wanted, given, h.begin())
}

fn case_125(h: &Holes) -> Outcome {
    let attendee_: Vec<ikal::Uri> = vec![h.params::<ikal::Uri>(8), h.params::<ikal::Uri>(9), h.params::<ikal::Uri>(10)];
    let attendee = attendee_.clone();
    h.begin();
    let built = ikal::valarm! {
        @email,
        trigger: h.s(0),
        x_prop: h.todo(1).x_prop,
        duration: h.s(2),
        attach: [format!("{}, {}", h.s(3), 1), format!("{}, {}", h.s(4), 1), h.params::<ikal::Text>(5), h.params::<ikal::Text>(6),],
        iana_prop: h.todo(7).x_prop,
        attendee,
        description: format!("{}, {}", h.s(11), 1),
        repeat: h.u32(12),
        summary: h.s(13),
    };
    let given = h.begin();
    let wanted = (|| -> Result<ikal::VAlarm, ikal::Error> { Ok(ikal::VAlarm::Email(ikal::valarm::Email { trigger: (h.s(0)).parse::<ikal::Trigger>()?, x_prop: h.todo(1).x_prop, duration: Some(ikal::parse_duration(h.s(2))?), attach: vec![ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(3), 1)).to_string() }, ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(4), 1)).to_string() }, h.params::<ikal::Text>(5), h.params::<ikal::Text>(6)], iana_prop: h.todo(7).x_prop, attendee: attendee_, description: ikal::Text { params: Default::default(), text: (format!("{}, {}", h.s(11), 1)).to_string() }, repeat: Some(h.u32(12)), summary: ikal::Text { params: Default::default(), text: (h.s(13)).to_string() }, action: ikal::Text::from("EMAIL"), ..Default::default() })) })();
    compare(built, wanted, given, h.begin())
}

pub const CASES: &[Case] = &[
    Case { kind: "VEvent", holes: &["datetime", "text", "date", "datetime", "text", "geo", "datetime", "text", "text", "number", "number", "text", "text", "date", "rule", "date", "duration", "text", "text", "text", "text", "text", "date", "text", "rdate", "rstatus", "text", "VALARM", "VALARM", "text", "text"], run: case_0 },
    Case { kind: "VEvent", holes: &["datetime", "text", "date", "datetime", "text", "number", "number", "datetime", "text", "text", "number", "number", "text", "text", "date", "number", "date", "duration", "text", "text", "text", "text", "text", "date", "text", "rdate", "text", "text", "text", "VALARM", "VALARM", "text", "text"], run: case_1 },
    Case { kind: "VEvent", holes: &["datetime", "text", "date", "datetime", "text", "geo", "datetime", "text", "text", "number", "number", "text", "text", "date", "rule", "date", "duration", "text", "text", "text", "text", "text", "text", "text", "text", "text", "text", "text", "text", "text", "date", "date", "date", "date", "text", "text", "text", "text", "rdate", "rdate", "rstatus", "rstatus", "text", "text", "number", "text", "text", "text", "text", "VALARM", "VALARM", "VALARM", "VALARM", "VALARM", "VALARM", "text", "text"], run: case_2 },
    Case { kind: "VEvent", holes: &["datetime", "text", "date", "text", "datetime", "text", "number", "number", "datetime", "text", "text", "text", "text", "date", "number", "date", "duration", "text", "text", "text", "text", "text", "text", "text", "text", "text", "text", "text", "text", "text", "text", "date", "date", "date", "date", "text", "text", "text", "rdate", "rdate", "rdate", "rdate", "text", "text", "text", "text", "text", "text", "text", "text", "VALARM", "VALARM", "VALARM", "VALARM", "VALARM", "VALARM", "VALARM", "VALARM", "text", "text"], run: case_3 },
    Case { kind: "VEvent", holes: &["number", "number", "text", "text"], run: case_4 },
    Case { kind: "VEvent", holes: &["datetime", "text", "date", "datetime", "text", "number", "datetime", "text", "text", "number", "number", "text", "text", "date", "number", "date", "duration", "text", "text", "text", "text", "text", "date", "text", "rdate", "number", "text", "text", "VALARM", "VALARM", "text", "text"], run: case_5 },
    Case { kind: "VEvent", holes: &["datetime", "text", "date", "datetime", "text", "geo", "datetime", "text", "text", "number", "number", "text", "text", "date", "rule", "date", "duration", "text", "text", "text", "text", "text", "text", "text", "text", "text", "text", "text", "text", "text", "text", "text", "text", "date", "date", "date", "date", "text", "text", "text", "rdate", "rdate", "rdate", "rstatus", "rstatus", "text", "text", "text", "number", "text", "text", "text", "VALARM", "VALARM", "VALARM", "VALARM", "VALARM", "VALARM", "text", "text"], run: case_6 },
    Case { kind: "VEvent", holes: &["datetime", "text", "date", "datetime", "text", "geo", "datetime", "text", "text", "number", "number", "text", "text", "date", "rule", "date", "duration", "text", "text", "text", "text", "text", "text", "text", "text", "text", "text", "text", "date", "date", "text", "text", "rdate", "rstatus", "text", "text", "text", "VALARM", "VALARM", "text", "text"], run: case_7 },
    Case { kind: "VEvent", holes: &["date", "rdate", "rdate", "rdate"], run: case_8 },
    Case { kind: "VEvent", holes: &["text", "text", "date", "VALARM", "VALARM", "VALARM", "VALARM", "VALARM", "VALARM", "VALARM", "VALARM", "rstatus", "rstatus", "text", "number", "datetime", "text", "text", "text", "text"], run: case_9 },
    Case { kind: "VEvent", holes: &["number", "text", "datetime"], run: case_10 },
    Case { kind: "VEvent", holes: &["text", "geo", "text", "text", "date", "text", "date", "duration", "date", "rdate", "number", "text", "text", "text", "date", "text", "text", "text", "text", "text", "datetime"], run: case_11 },
    Case { kind: "VEvent", holes: &["text", "text", "text", "text", "text", "date", "VALARM", "VALARM", "VALARM", "VALARM", "VALARM", "VALARM", "VALARM", "VALARM", "geo", "text", "text", "text", "date", "date", "date", "text", "text", "text", "text", "text", "text", "text", "date", "rdate", "rdate", "rdate", "text", "text", "text", "datetime", "text", "duration", "number", "text", "number", "text", "text", "rule", "date", "text", "text", "text", "datetime", "text", "datetime", "number"], run: case_12 },
    Case { kind: "VEvent", holes: &["rdate", "rdate", "rdate", "rdate", "datetime", "number", "text", "text", "text", "rule", "number", "text", "text", "text", "text", "text", "text", "text", "text", "VALARM", "VALARM", "VALARM", "VALARM", "VALARM", "VALARM", "number", "datetime", "text", "date", "date", "date", "date", "date", "duration", "text", "text", "text", "datetime", "text", "text", "text", "text", "text"], run: case_13 },
    Case { kind: "VTodo", holes: &["datetime", "text", "datetime", "datetime", "date", "geo", "datetime", "text", "text", "number", "number", "date", "number", "text", "text", "rule", "date", "duration", "text", "text", "text", "text", "text", "date", "text", "rdate", "rstatus", "text", "text", "text"], run: case_14 },
    Case { kind: "VTodo", holes: &["datetime", "text", "datetime", "datetime", "date", "number", "number", "datetime", "text", "text", "number", "number", "date", "number", "text", "text", "number", "number", "date", "duration", "text", "text", "text", "text", "text", "date", "text", "rdate", "text", "number", "text", "text", "text"], run: case_15 },
    Case { kind: "VTodo", holes: &["datetime", "text", "datetime", "datetime", "date", "geo", "datetime", "text", "text", "number", "number", "date", "number", "text", "text", "rule", "date", "duration", "text", "text", "text", "text", "text", "text", "text", "text", "text", "text", "text", "text", "date", "date", "date", "text", "text", "text", "rdate", "rdate", "rdate", "rstatus", "text", "text", "number", "text", "text", "text", "text", "text"], run: case_16 },
    Case { kind: "VTodo", holes: &["datetime", "text", "text", "datetime", "datetime", "date", "number", "datetime", "text", "text", "date", "text", "text", "number", "date", "duration", "text", "text", "text", "text", "text", "text", "text", "text", "text", "text", "text", "text", "text", "text", "text", "date", "date", "date", "text", "text", "text", "text", "rdate", "rdate", "rdate", "rdate", "text", "number", "text", "number", "text", "text", "text", "text", "number", "text", "text", "text", "text"], run: case_17 },
    Case { kind: "VTodo", holes: &["number", "number", "number", "text", "text"], run: case_18 },
    Case { kind: "VTodo", holes: &["datetime", "text", "datetime", "datetime", "date", "number", "number", "datetime", "text", "text", "number", "number", "date", "number", "text", "text", "number", "number", "number", "number", "number", "date", "duration", "text", "text", "text", "text", "text", "date", "text", "rdate", "text", "text", "text", "text"], run: case_19 },
    Case { kind: "VTodo", holes: &["datetime", "text", "datetime", "datetime", "date", "geo", "datetime", "text", "text", "number", "number", "date", "number", "text", "text", "rule", "date", "duration", "text", "text", "text", "text", "text", "text", "text", "text", "text", "text", "text", "text", "text", "text", "text", "text", "date", "date", "date", "text", "text", "text", "rdate", "rdate", "rdate", "rstatus", "text", "number", "text", "text", "text", "text", "text"], run: case_20 },
    Case { kind: "VTodo", holes: &["datetime", "text", "datetime", "datetime", "date", "geo", "datetime", "text", "text", "number", "number", "date", "number", "text", "text", "rule", "date", "duration", "text", "text", "text", "text", "text", "text", "text", "text", "text", "text", "date", "date", "text", "text", "rdate", "rdate", "rdate", "rstatus", "rstatus", "text", "text", "text"], run: case_21 },
    Case { kind: "VTodo", holes: &["text", "text", "text", "text", "text", "datetime", "text", "text", "text", "duration", "date", "date", "date", "date", "date", "text", "text", "datetime", "rule", "text", "text", "number", "text", "text", "geo", "number", "text", "rdate", "text", "text", "text", "number", "text"], run: case_22 },
    Case { kind: "VTodo", holes: &["text", "text", "number", "text", "text", "date", "text", "number", "text", "date", "text", "datetime", "rdate", "rdate", "rdate", "rdate", "date", "text", "text", "text", "text", "text", "duration", "text", "text", "text"], run: case_23 },
    Case { kind: "VTodo", holes: &["number", "text", "text", "text", "text", "text", "rdate", "number", "date", "date", "number", "datetime", "text", "number", "text", "text", "date", "datetime", "text", "text", "datetime", "text", "date", "datetime", "date"], run: case_24 },
    Case { kind: "VTodo", holes: &["datetime", "date", "text", "text", "text", "text", "text", "text", "text", "text", "text", "number", "text", "number", "rdate"], run: case_25 },
    Case { kind: "VTodo", holes: &["datetime", "number", "number", "date", "date", "date", "text", "text", "date", "text", "datetime", "rule", "date", "datetime", "number", "date", "duration", "text"], run: case_26 },
    Case { kind: "VTodo", holes: &["text", "text", "text", "datetime", "text", "text", "text"], run: case_27 },
    Case { kind: "VJournal", holes: &["datetime", "text", "datetime", "date", "datetime", "text", "date", "number", "text", "text", "rule", "text", "text", "text", "text", "text", "date", "text", "rdate", "rstatus", "text", "text", "text"], run: case_28 },
    Case { kind: "VJournal", holes: &["datetime", "text", "datetime", "date", "datetime", "text", "date", "number", "text", "text", "number", "number", "number", "number", "number", "number", "number", "number", "number", "number", "number", "number", "number", "number", "number", "number", "number", "number", "number", "number", "date", "text", "text", "text", "text", "text", "date", "text", "rdate", "text", "text", "text", "text"], run: case_29 },
    Case { kind: "VJournal", holes: &["datetime", "text", "datetime", "date", "datetime", "text", "date", "number", "text", "text", "rule", "text", "text", "text", "text", "text", "text", "text", "text", "text", "text", "text", "text", "text", "text", "text", "date", "date", "date", "text", "text", "rdate", "rdate", "rdate", "rstatus", "rstatus", "number", "text", "text", "text", "text", "text", "text"], run: case_30 },
    Case { kind: "VJournal", holes: &["datetime", "text", "text", "datetime", "date", "datetime", "text", "date", "text", "text", "number", "number", "number", "text", "text", "text", "text", "text", "text", "text", "text", "text", "text", "text", "text", "text", "text", "text", "text", "date", "date", "date", "text", "text", "text", "rdate", "rdate", "rdate", "text", "number", "text", "text", "text", "text", "text", "text", "text"], run: case_31 },
    Case { kind: "VJournal", holes: &["number", "text", "text"], run: case_32 },
    Case { kind: "VJournal", holes: &["datetime", "text", "datetime", "date", "datetime", "text", "date", "number", "text", "text", "number", "text", "text", "text", "text", "text", "date", "text", "rdate", "text", "text", "text", "text"], run: case_33 },
    Case { kind: "VJournal", holes: &["datetime", "text", "datetime", "date", "datetime", "text", "date", "number", "text", "text", "rule", "text", "text", "text", "text", "text", "text", "text", "text", "text", "text", "text", "text", "text", "date", "date", "date", "text", "text", "rdate", "rdate", "rdate", "rstatus", "text", "text", "text", "text", "text", "text", "text"], run: case_34 },
    Case { kind: "VJournal", holes: &["datetime", "text", "datetime", "date", "datetime", "text", "date", "number", "text", "text", "rule", "text", "text", "text", "text", "text", "text", "text", "text", "text", "text", "text", "text", "date", "date", "date", "text", "text", "text", "rdate", "rdate", "rstatus", "rstatus", "rstatus", "text", "text", "text"], run: case_35 },
    Case { kind: "VJournal", holes: &["rdate", "text"], run: case_36 },
    Case { kind: "VJournal", holes: &["text", "text", "text", "text", "text", "text"], run: case_37 },
    Case { kind: "VJournal", holes: &["text", "text", "number"], run: case_38 },
    Case { kind: "VJournal", holes: &["text", "text", "date", "datetime", "text", "text", "text", "text", "rstatus", "text", "text", "datetime", "rdate", "rdate", "rdate", "text", "text", "text", "text", "text", "text", "text", "text", "text", "text", "text", "text", "text", "text", "text", "text", "date", "text", "datetime", "rule"], run: case_39 },
    Case { kind: "VJournal", holes: &["text", "text", "text", "text", "text", "number", "text", "text", "datetime", "text", "text", "text", "text", "datetime"], run: case_40 },
    Case { kind: "VJournal", holes: &["text", "rstatus", "rstatus", "text", "text", "number", "datetime", "datetime", "text", "text", "text", "date", "date", "text", "text"], run: case_41 },
    Case { kind: "VFreebusy", holes: &["datetime", "text", "text", "date", "date", "text", "text", "text", "text", "period", "rstatus", "text", "text"], run: case_42 },
    Case { kind: "VFreebusy", holes: &["datetime", "text", "text", "date", "date", "text", "text", "text", "text", "period", "text", "text", "text"], run: case_43 },
    Case { kind: "VFreebusy", holes: &["datetime", "text", "text", "date", "date", "text", "text", "text", "text", "text", "text", "text", "text", "text", "text", "period", "period", "rstatus", "text", "number", "text", "number", "text", "text", "text", "text"], run: case_44 },
    Case { kind: "VFreebusy", holes: &["datetime", "text", "text", "date", "date", "text", "text", "text", "text", "text", "text", "text", "text", "period", "period", "period", "period", "period", "text", "number", "text", "text", "text", "text"], run: case_45 },
    Case { kind: "VFreebusy", holes: &["text", "text"], run: case_46 },
    Case { kind: "VFreebusy", holes: &["datetime", "text", "text", "date", "date", "text", "text", "text", "text", "period", "text", "text", "number", "text", "text"], run: case_47 },
    Case { kind: "VFreebusy", holes: &["datetime", "text", "text", "date", "date", "text", "text", "text", "text", "text", "text", "text", "period", "period", "period", "period", "rstatus", "text", "text", "number", "text", "text"], run: case_48 },
    Case { kind: "VFreebusy", holes: &["datetime", "text", "text", "date", "date", "text", "text", "text", "text", "text", "period", "period", "period", "rstatus", "rstatus", "rstatus", "text", "text"], run: case_49 },
    Case { kind: "VFreebusy", holes: &["datetime", "text", "rstatus"], run: case_50 },
    Case { kind: "VFreebusy", holes: &["text", "date", "text"], run: case_51 },
    Case { kind: "VFreebusy", holes: &["text", "rstatus", "rstatus", "text", "date", "period", "text", "text", "datetime", "text", "text", "date"], run: case_52 },
    Case { kind: "VFreebusy", holes: &["datetime", "text", "text", "text", "text", "text", "rstatus", "rstatus", "text", "number", "text", "date", "text", "text"], run: case_53 },
    Case { kind: "VFreebusy", holes: &["date", "text", "text", "text", "text", "text", "datetime", "text", "period", "text", "number", "number", "text", "text", "text", "number", "text", "date"], run: case_54 },
    Case { kind: "VFreebusy", holes: &["text", "text", "text", "text", "text", "date", "text", "rstatus", "text", "text"], run: case_55 },
    Case { kind: "VTimezone", holes: &["text", "datetime", "text", "date", "offset", "text", "rdate", "text", "offset", "text", "text", "text", "text"], run: case_56 },
    Case { kind: "VTimezone", holes: &["text", "datetime", "text", "text", "offset", "text", "rdate", "rdate", "rdate", "text", "text"], run: case_57 },
    Case { kind: "VTimezone", holes: &["text", "datetime", "text", "rdate", "date", "text", "text", "text", "offset", "text", "text", "text", "text", "text", "offset", "text", "text", "rdate", "text", "date", "text", "text"], run: case_58 },
    Case { kind: "VTimezone", holes: &["text", "datetime", "text", "text", "offset", "date", "number", "number", "number", "number", "number", "number", "number", "number", "date", "number", "number", "number", "number", "number", "rdate", "rdate", "rdate", "text", "text", "text", "text", "text", "offset", "text", "rdate", "offset", "offset", "rule", "date", "text", "date", "offset", "rdate", "text", "text", "date", "text", "text"], run: case_59 },
    Case { kind: "VTimezone", holes: &["text", "text"], run: case_60 },
    Case { kind: "VTimezone", holes: &["text", "datetime", "text", "text", "rdate", "rdate", "rdate", "text", "offset", "date", "offset", "text", "text"], run: case_61 },
    Case { kind: "VTimezone", holes: &["text", "datetime", "text", "text", "offset", "rdate", "offset", "text", "text", "date", "offset", "text", "date", "rdate", "date", "text", "text", "number", "number", "number", "offset", "offset", "offset", "date", "text", "text", "rule", "text", "text", "offset", "number", "number", "date", "text", "text", "text"], run: case_62 },
    Case { kind: "VTimezone", holes: &["text", "datetime", "text", "STANDARD", "DAYLIGHT", "DAYLIGHT", "DAYLIGHT", "text", "text"], run: case_63 },
    Case { kind: "VTimezone", holes: &["text", "text", "text", "text", "rdate", "rdate", "rdate", "offset", "date", "rdate", "rdate", "rdate", "rdate", "offset", "text", "date", "text", "rule", "rdate", "datetime"], run: case_64 },
    Case { kind: "VTimezone", holes: &["text", "text", "offset", "date", "rdate", "offset", "text", "text", "text", "text", "number", "number", "text", "text", "datetime", "text", "text", "text", "offset", "rdate", "rdate", "rdate", "text", "text", "offset", "text", "text", "offset", "text", "text"], run: case_65 },
    Case { kind: "VTimezone", holes: &["text", "rdate", "text", "text", "text", "text", "number", "number", "number", "number", "text", "offset", "text", "text", "text", "text", "number", "offset", "text", "datetime"], run: case_66 },
    Case { kind: "VTimezone", holes: &["text", "DAYLIGHT", "DAYLIGHT", "DAYLIGHT", "text", "text", "text", "rule", "offset", "rdate", "date", "offset", "text", "text", "text", "number", "number", "number", "number", "number", "number", "rdate", "rdate", "rdate", "text", "datetime"], run: case_67 },
    Case { kind: "VTimezone", holes: &["rdate", "rdate", "rdate", "rdate", "text", "offset", "text", "text", "text", "text", "datetime", "DAYLIGHT", "DAYLIGHT", "DAYLIGHT"], run: case_68 },
    Case { kind: "VTimezone", holes: &["STANDARD", "STANDARD", "text", "text", "text", "datetime", "rdate", "rdate", "rdate", "rdate", "text", "offset", "offset", "text", "rdate", "rdate", "text", "offset", "text", "text", "text", "date", "offset", "text", "rdate", "offset", "text", "text", "text"], run: case_69 },
    Case { kind: "VCalendar", holes: &["text", "text", "text", "text", "VALARM", "VALARM", "text", "text", "VFREEBUSY", "VJOURNAL", "VTODO", "VTIMEZONE", "text", "text"], run: case_70 },
    Case { kind: "VCalendar", holes: &["text", "text", "text", "text", "VALARM", "VALARM", "text", "text", "text", "VFREEBUSY", "VJOURNAL", "VTODO", "VTIMEZONE", "text", "text"], run: case_71 },
    Case { kind: "VCalendar", holes: &["text", "text", "text", "text", "VALARM", "VALARM", "VALARM", "VALARM", "datetime", "datetime", "geo", "date", "text", "text", "text", "text", "text", "rdate", "text", "text", "text", "text", "text", "text", "number", "text", "text", "text", "datetime", "duration", "text", "text", "text", "text", "text", "text", "text", "date", "VALARM", "VALARM", "VALARM", "VALARM", "VALARM", "VALARM", "rstatus", "rstatus", "number", "text", "text", "date", "date", "date", "date", "text", "datetime", "text", "number", "VALARM", "VALARM", "VALARM", "VALARM", "geo", "text", "text", "text", "text", "text", "datetime", "text", "date", "text", "text", "text", "number", "text", "number", "text", "text", "number", "datetime", "text", "duration", "text", "text", "text", "text", "text", "rdate", "VFREEBUSY", "VFREEBUSY", "VFREEBUSY", "VFREEBUSY", "VJOURNAL", "VJOURNAL", "VJOURNAL", "VTODO", "VTODO", "VTODO", "VTIMEZONE", "VTIMEZONE", "text", "text"], run: case_72 },
    Case { kind: "VCalendar", holes: &["text", "text", "text", "text", "VALARM", "VALARM", "VALARM", "VALARM", "VALARM", "VALARM", "VALARM", "VALARM", "rule", "date", "text", "date", "date", "text", "text", "text", "text", "date", "VFREEBUSY", "VFREEBUSY", "VFREEBUSY", "VFREEBUSY", "VFREEBUSY", "VJOURNAL", "VJOURNAL", "VJOURNAL", "VJOURNAL", "VJOURNAL", "VTODO", "VTODO", "VTODO", "VTODO", "VTODO", "VTIMEZONE", "VTIMEZONE", "VTIMEZONE", "VTIMEZONE", "VTIMEZONE", "text", "text"], run: case_73 },
    Case { kind: "VCalendar", holes: &["text", "text", "text", "text"], run: case_74 },
    Case { kind: "VCalendar", holes: &["text", "text", "text", "text", "VALARM", "VALARM", "text", "text", "text", "text", "VFREEBUSY", "VJOURNAL", "VTODO", "VTIMEZONE", "text", "text"], run: case_75 },
    Case { kind: "VCalendar", holes: &["text", "text", "text", "text", "VALARM", "VALARM", "VALARM", "VALARM", "text", "VFREEBUSY", "VFREEBUSY", "VFREEBUSY", "VJOURNAL", "VJOURNAL", "VTODO", "VTODO", "VTIMEZONE", "VTIMEZONE", "VTIMEZONE", "text", "text"], run: case_76 },
    Case { kind: "VCalendar", holes: &["text", "text", "text", "text", "VALARM", "VALARM", "VALARM", "VALARM", "VEVENT", "VEVENT", "VEVENT", "VFREEBUSY", "VJOURNAL", "VJOURNAL", "VTODO", "VTODO", "VTODO", "VTIMEZONE", "VTIMEZONE", "VTIMEZONE", "text", "text"], run: case_77 },
    Case { kind: "VCalendar", holes: &["text", "number", "VJOURNAL", "text", "VFREEBUSY", "VFREEBUSY", "VFREEBUSY", "text", "VALARM", "VALARM", "VALARM", "VALARM", "VALARM", "VALARM", "text", "VTIMEZONE", "VTIMEZONE", "VTODO", "text"], run: case_78 },
    Case { kind: "VCalendar", holes: &["text", "VALARM", "VALARM", "VALARM", "VALARM", "VALARM", "VALARM", "VALARM", "VALARM", "VALARM", "VALARM", "VALARM", "VALARM", "VTODO", "text", "VTIMEZONE", "VFREEBUSY", "text", "text", "VJOURNAL", "VJOURNAL", "VJOURNAL", "text", "text"], run: case_79 },
    Case { kind: "VCalendar", holes: &["VFREEBUSY", "text", "VALARM", "VALARM", "VJOURNAL", "text"], run: case_80 },
    Case { kind: "VCalendar", holes: &["VJOURNAL", "text", "text", "VFREEBUSY", "text", "text", "text", "text", "text", "text"], run: case_81 },
    Case { kind: "VCalendar", holes: &["text", "text", "VEVENT", "VEVENT", "VEVENT", "VJOURNAL", "text", "VTIMEZONE", "VTIMEZONE", "VTIMEZONE", "text", "text"], run: case_82 },
    Case { kind: "VCalendar", holes: &["VJOURNAL", "text", "VTODO", "VTODO", "text", "text", "text", "text", "text", "text", "text", "text"], run: case_83 },
    Case { kind: "VAlarm", holes: &["trigger", "duration", "number", "text", "text", "text"], run: case_84 },
    Case { kind: "VAlarm", holes: &["trigger", "duration", "number", "text", "text", "text"], run: case_85 },
    Case { kind: "VAlarm", holes: &["trigger", "duration", "number", "text", "text", "text", "text"], run: case_86 },
    Case { kind: "VAlarm", holes: &["trigger", "duration", "text", "text", "text", "text"], run: case_87 },
    Case { kind: "VAlarm", holes: &["number", "text", "text"], run: case_88 },
    Case { kind: "VAlarm", holes: &["trigger", "duration", "number", "text", "text", "text"], run: case_89 },
    Case { kind: "VAlarm", holes: &["trigger", "duration", "number", "text", "text", "text", "text", "text"], run: case_90 },
    Case { kind: "VAlarm", holes: &["trigger", "duration", "number", "text", "text", "text", "text"], run: case_91 },
    Case { kind: "VAlarm", holes: &["duration", "text", "text", "number"], run: case_92 },
    Case { kind: "VAlarm", holes: &["text", "text", "text", "trigger", "text", "duration"], run: case_93 },
    Case { kind: "VAlarm", holes: &["text", "number", "text", "text", "duration", "trigger"], run: case_94 },
    Case { kind: "VAlarm", holes: &["text", "trigger", "text"], run: case_95 },
    Case { kind: "VAlarm", holes: &["duration", "text", "text", "text", "text", "text", "number", "text"], run: case_96 },
    Case { kind: "VAlarm", holes: &["trigger", "duration", "text"], run: case_97 },
    Case { kind: "VAlarm", holes: &["trigger", "duration", "number", "text", "text", "text"], run: case_98 },
    Case { kind: "VAlarm", holes: &["trigger", "duration", "number", "text", "text", "text"], run: case_99 },
    Case { kind: "VAlarm", holes: &["trigger", "duration", "number", "text", "text", "text"], run: case_100 },
    Case { kind: "VAlarm", holes: &["trigger", "duration", "text", "text", "text"], run: case_101 },
    Case { kind: "VAlarm", holes: &["number", "text", "text"], run: case_102 },
    Case { kind: "VAlarm", holes: &["trigger", "duration", "number", "text", "text", "text"], run: case_103 },
    Case { kind: "VAlarm", holes: &["trigger", "duration", "number", "text", "text", "text"], run: case_104 },
    Case { kind: "VAlarm", holes: &["trigger", "duration", "number", "text", "text", "text"], run: case_105 },
    Case { kind: "VAlarm", holes: &["duration", "trigger", "text"], run: case_106 },
    Case { kind: "VAlarm", holes: &["text", "duration", "trigger", "text", "text"], run: case_107 },
    Case { kind: "VAlarm", holes: &["text", "duration", "number"], run: case_108 },
    Case { kind: "VAlarm", holes: &["trigger", "text", "text"], run: case_109 },
    Case { kind: "VAlarm", holes: &["text", "duration", "text", "text"], run: case_110 },
    Case { kind: "VAlarm", holes: &["text", "text", "number", "duration"], run: case_111 },
    Case { kind: "VAlarm", holes: &["trigger", "duration", "number", "text", "text", "text", "text", "text", "text"], run: case_112 },
    Case { kind: "VAlarm", holes: &["trigger", "duration", "number", "text", "text", "text", "text", "text", "text"], run: case_113 },
    Case { kind: "VAlarm", holes: &["trigger", "duration", "number", "text", "text", "text", "text", "text", "text", "text", "text", "text", "text", "text"], run: case_114 },
    Case { kind: "VAlarm", holes: &["trigger", "duration", "text", "text", "text", "text", "text", "text", "text", "text"], run: case_115 },
    Case { kind: "VAlarm", holes: &["number", "text", "text"], run: case_116 },
    Case { kind: "VAlarm", holes: &["trigger", "duration", "number", "text", "text", "text", "text", "text", "text"], run: case_117 },
    Case { kind: "VAlarm", holes: &["trigger", "duration", "number", "text", "text", "text", "text", "text", "text", "text", "text", "text", "text"], run: case_118 },
    Case { kind: "VAlarm", holes: &["trigger", "duration", "number", "text", "text", "text", "text", "text", "text", "text", "text", "text"], run: case_119 },
    Case { kind: "VAlarm", holes: &["trigger", "text", "text", "text", "text", "text", "text", "number", "text", "text", "duration"], run: case_120 },
    Case { kind: "VAlarm", holes: &["text", "text", "text", "text", "duration", "trigger", "text", "number", "text", "text"], run: case_121 },
    Case { kind: "VAlarm", holes: &["text", "number", "trigger", "text", "text", "text"], run: case_122 },
    Case { kind: "VAlarm", holes: &["number", "duration", "text", "text", "text"], run: case_123 },
    Case { kind: "VAlarm", holes: &["text", "text", "text", "text", "text", "text", "trigger", "duration", "text", "number", "text"], run: case_124 },
    Case { kind: "VAlarm", holes: &["trigger", "text", "duration", "text", "text", "text", "text", "text", "text", "text", "text", "text", "number", "text"], run: case_125 },
];
