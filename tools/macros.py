#!/usr/bin/env python3
"""Writes sim/macros/src/generated.rs: invocations of the builder macros, and what each must build.

For every component, each field alone in each way of writing it, then mixes of fields. What is
expected is written field by field, from the types of the fields, not from the code of the macros."""
import random
from pathlib import Path

random.seed(20240229)

T, U, D, DT, DU = 'text', 'uri', 'date', 'datetime', 'duration'
EVENTLIKE = {
    'attach': [T], 'attendee': [U], 'categories': [T], 'comment': [T], 'contact': [T], 'exdate': [D],
    'related_to': [T], 'rdate': ['rdate'], 'rstatus': ['rstatus'],
}
PROPS = {'x_prop': 'props', 'iana_prop': 'props'}
ZONE = {'dtstart': D, 'tzoffsetto': 'offset', 'tzoffsetfrom': 'offset', 'rrule': ('rule',), 'comment': [T], 'rdate': ['rdate'], 'tzname': [T], **PROPS}
ALARM = {'trigger': 'trigger', 'duration': (DU,), 'repeat': ('u32',), **PROPS}
# A tuple is an option, a list a list.
FIELDS = {
    'VEvent': {
        'dtstamp': DT, 'uid': T, 'dtstart': D, 'class': ('class',), 'created': (DT,), 'description': (T,), 'geo': ('geo',),
        'last_modified': (DT,), 'location': (T,), 'organizer': (U,), 'priority': ('u8',), 'sequence': ('u32',), 'status': ('status',),
        'summary': (T,), 'transp': ('transp',), 'url': (U,), 'recurid': (D,), 'rrule': ('rule',), 'dtend': (D,), 'duration': (DU,),
        **EVENTLIKE, 'resources': [T], 'alarms': ['alarm'], **PROPS,
    },
    'VTodo': {
        'dtstamp': DT, 'uid': T, 'class': ('class',), 'completed': (DT,), 'created': (DT,), 'dtstart': (D,), 'geo': ('geo',),
        'last_modified': (DT,), 'location': (T,), 'organizer': (U,), 'percent_complete': ('u8',), 'priority': ('u8',), 'recurid': (D,),
        'sequence': ('u32',), 'status': ('status',), 'summary': (T,), 'url': (U,), 'rrule': ('rule',), 'due': (D,), 'duration': (DU,),
        **EVENTLIKE, 'resources': [T], **PROPS,
    },
    'VJournal': {
        'dtstamp': DT, 'uid': T, 'class': ('class',), 'created': (DT,), 'dtstart': D, 'last_modified': (DT,), 'organizer': (U,),
        'recurid': (D,), 'sequence': ('u32',), 'status': ('status',), 'summary': (T,), 'url': (U,), 'rrule': ('rule',),
        **EVENTLIKE, 'description': [T], **PROPS,
    },
    'VFreebusy': {
        'dtstamp': DT, 'uid': T, 'contact': (T,), 'dtstart': (D,), 'dtend': (D,), 'organizer': (U,), 'url': (U,), 'attendee': [U],
        'comment': [T], 'freebusy': ['period'], 'rstatus': ['rstatus'], **PROPS,
    },
    'VTimezone': {'tzid': T, 'last_modified': (DT,), 'tzurl': (U,), 'standard': ['standard'], 'daylight': ['daylight'], **PROPS},
    'VCalendar': {
        'prodid': T, 'version': T, 'calscale': 'some text', 'method': 'some text', 'alarms': ['alarm'], 'events': ['event'],
        'freebusy': ['VFreebusy'], 'journals': ['VJournal'], 'todo': ['VTodo'], 'timezones': ['VTimezone'], **PROPS,
    },
    'valarm::Audio': {**ALARM, 'attach': [T]},
    'valarm::Display': {**ALARM, 'description': T},
    'valarm::Email': {**ALARM, 'description': T, 'summary': T, 'attendee': [U], 'attach': [T]},
    'vtimezone::Standard': ZONE,
    'vtimezone::Daylight': ZONE,
    'Recur': {
        'freq': 'freq', 'until': 'some date', 'count': 'some u8', 'interval': 'u8', 'by_second': ['i8'], 'by_minute': ['i8'],
        'by_hour': ['i8'], 'by_day': ['weekday'], 'by_monthday': ['i8'], 'by_yearday': ['i8'], 'by_weekno': ['i8'], 'by_month': ['i8'],
        'by_setpos': ['i8'], 'wkst': 'some wkst',
    },
    'Geo': {'lat': 'f32', 'lon': 'f32'},
    'RequestStatus': {'statcode': 'f32', 'statdesc': 'string', 'extdata': ('string',)},
}
TYPES = {
    T: 'ikal::Text', U: 'ikal::Uri', D: 'ikal::Date', DT: 'ikal::DateTime', DU: 'chrono::TimeDelta', 'class': 'ikal::Class',
    'status': 'ikal::Status', 'transp': 'ikal::TimeTransparency', 'geo': 'ikal::Geo', 'rule': 'ikal::Recur', 'rdate': 'ikal::RDate',
    'rstatus': 'ikal::RequestStatus', 'offset': 'chrono::FixedOffset', 'trigger': 'ikal::Trigger', 'period': 'ikal::Period',
    'alarm': 'ikal::VAlarm', 'event': 'ikal::VEvent', 'standard': 'ikal::vtimezone::Standard', 'daylight': 'ikal::vtimezone::Daylight',
    'u8': 'u8', 'u32': 'u32', 'i8': 'i8', 'f32': 'f32', 'string': 'String', 'weekday': 'ikal::WeekdayNum', 'wkst': 'ikal::Weekday',
    'props': 'std::collections::BTreeMap<String, _>', 'freq': 'ikal::Freq',
}
# Read from a text; the names are those of the texts the simulator draws.
PARSED = {
    D: ['20240229', '20240331T023000', '20240229T', ''], DT: ['20240331T023000', '20240331'], DU: ['P1DT2H', '-PT15M', '1D'],
    'geo': ['48.85;2.35', '48.85'], 'rule': ['FREQ=WEEKLY;INTERVAL=2', 'FREQ=NEVER'], 'rdate': ['20240229'], 'offset': ['+0100', '-0330', '0100'],
    'rstatus': ['2.0;Success', 'Success'], 'trigger': ['-PT15M', '20240229T120000', 'noon'],
}
ENUMS = {
    'class': ['Public', 'Private', 'Confidential', 'CUSTOM'],
    'status': ['Tentative', 'Confirmed', 'Cancelled', 'NeedsAction', 'Completed', 'InProcess', 'Draft', 'Final'],
    'transp': ['Opaque', 'Transparent'],
    'freq': ['Secondly', 'Minutely', 'Hourly', 'Daily', 'Weekly', 'Monthly', 'Yearly'],
}
OBJECTS = {'geo': 'Geo', 'rule': 'Recur', 'rstatus': 'RequestStatus', 'standard': 'vtimezone::Standard', 'daylight': 'vtimezone::Daylight', 'event': 'VEvent'}
NUMBERS = {'u8', 'u32', 'i8', 'f32'}


class Case:
    def __init__(self):
        self.holes, self.locals = [], []

    def hole(self, kind):
        self.holes.append(kind)
        return len(self.holes) - 1

    def value(self, kind, form, depth):
        """What is given to the macro, and what the field then holds."""
        if kind in OBJECTS and (kind not in PARSED or form % 2) and depth < 3 and form != 9:
            return self.object(OBJECTS[kind], depth + 1, form)
        if kind in PARSED:
            read = (lambda x: f'ikal::parse_duration({x})?') if kind == DU else (lambda x: f'({x}).parse::<{TYPES[kind]}>()?')
            if form % 5 == 4:
                text = random.choice(PARSED[kind])
                return f'"{text}"', read(f'"{text}"')
            i = self.hole(kind)
            if form % 5 == 2:
                amp = '&' if kind == DU or i % 2 else ''
                return f'{amp}h.string({i})', read(f'&h.string({i})' if kind == DU else f'h.string({i})')
            return f'h.s({i})', read(f'h.s({i})')
        if kind in ENUMS:
            variant = ENUMS[kind][form % len(ENUMS[kind])]
            if variant == 'CUSTOM':
                i = self.hole('text')
                return f'Custom(h.string({i}))', f'ikal::Class::Custom(h.string({i}))'
            return variant, f'{TYPES[kind]}::{variant}'
        if kind in (T, U, 'string'):
            wanted = (lambda x: f'ikal::{kind.title()} {{ params: Default::default(), {kind}: ({x}).to_string() }}' if kind != 'string' else f'({x}).to_string()')
            if form % 5 == 4:
                return '"a, b; c"', wanted('"a, b; c"')
            i = self.hole('text')
            e = [f'h.s({i})', f'h.string({i})', f'format!("{{}}, {{}}", h.s({i}), 1)', f'h.params::<{TYPES[kind]}>({i})'][form % (3 if kind == 'string' else 4)]
            return e, (e if 'params' in e else wanted(e))
        if kind in NUMBERS:
            if form % 4 == 3:
                x = random.choice(['1.5', '-0.25', '2. * 0.5']) if kind == 'f32' else random.choice(['0', '7', '1 + 2'] + ['-1', '-5'] * (kind == 'i8'))
                return x, x
            if form % 4 == 2 and kind != 'f32':
                i = self.hole('number')
                return f'h.u8({i}) as {kind}', f'h.u8({i}) as {kind}'
            i = self.hole('number')
            return f'h.{kind}({i})', f'h.{kind}({i})'
        if kind.startswith('some '):
            kind = kind[5:]
            if kind == T:
                e = f'ikal::Text::from(h.s({self.hole("text")}))'
                return (f'Some({e})' if form % 2 else e), f'Some({e})'
            if kind == D:
                e = f'h.parsed::<ikal::Date>({self.hole(D)})'
            elif kind == 'wkst':
                e = f'h.weekday({self.hole("number")}).weekday'
            else:
                e = f'h.u8({self.hole("number")})'
            return (f'Some({e})' if form % 2 else e), f'Some({e})'
        if kind == 'period':
            e = f'h.period({self.hole("period")})'
        elif kind == 'weekday':
            e = f'h.weekday({self.hole("number")})'
        elif kind == 'alarm':
            e = [f'h.alarm({self.hole("VALARM")})', f'h.audio({self.hole("VALARM")})'][form % 2]
            return e, f'ikal::VAlarm::from({e})'
        elif kind == 'props':
            e = f'h.todo({self.hole("text")}).x_prop'
        elif kind in ('event', 'standard', 'daylight') or kind.startswith('V'):
            ty = TYPES.get(kind, f'ikal::{kind}')
            e = f'h.parsed::<{ty}>({self.hole(ty.split("::")[-1].upper())})'
        else:
            raise Exception(kind)
        return e, e

    def shorthand(self, field, ty):
        """A variable with the name of the field, and its type."""
        def one(kind):
            kind = kind.removeprefix('some ')
            t = TYPES.get(kind, f'ikal::{kind}')
            if kind == DU:
                return t, f'h.length({self.hole(DU)})'
            if kind in PARSED:
                return t, f'h.offset({self.hole("offset")})' if kind == 'offset' else f'h.parsed::<{t}>({self.hole(kind)})'
            if kind in ENUMS:
                return t, f'{t}::{ENUMS[kind][0]}'
            if kind in (T, U):
                return t, f'h.params::<{t}>({self.hole("text")})'
            if kind in NUMBERS:
                return t, f'h.{kind}({self.hole("number")})'
            if kind == 'string':
                return t, f'h.string({self.hole("text")})'
            _, e = self.value(kind, 9, 9)
            return t, e
        if isinstance(ty, tuple) or (isinstance(ty, str) and ty.startswith('some ')):
            t, e = one(ty[0] if isinstance(ty, tuple) else ty)
            t, e = f'Option<{t}>', random.choice([f'Some({e})', f'Some({e})', 'None'])
        elif isinstance(ty, list):
            t, e = one(ty[0])
            t, e = f'Vec<{t}>', f'vec![{", ".join([e] + [one(ty[0])[1] for _ in range(random.randrange(3))])}]'
        else:
            t, e = one(ty)
        self.locals.append(f'    let {field}_: {t} = {e};\n    let {field} = {field}_.clone();\n')
        return None, f'{field}_'

    def field(self, field, ty, form, depth):
        if form == 7 and depth == 0:
            return self.shorthand(field, ty)
        if isinstance(ty, tuple):
            a, b = self.value(ty[0], form, depth)
            return a, f'Some({b})'
        if isinstance(ty, list):
            n = form % 4 if form < 7 else 1
            n = 1 if form == 0 else n
            items = []
            for k in range(n):
                # Two in a row that are written alike, and may have the same value.
                for _ in range(random.choice([1, 2]) if n > 1 else 1):
                    items.append(self.value(ty[0], form + k if form < 7 else form, depth))
            comma = ',' if items and form % 3 == 0 else ''
            return '[' + ', '.join(x for x, _ in items) + comma + ']', 'vec![' + ', '.join(x for _, x in items) + ']'
        return self.value(ty, form, depth)

    def object(self, ty, depth, form, only=None):
        fields = list(FIELDS[ty].items())
        if only is not None:
            fields = only
        else:
            random.shuffle(fields)
            fields = fields[: random.choice([1, 2, 3, 4, len(fields)] if depth else [3, 6, 10, 20, len(fields)])]
        left, right = [], []
        for name, t in fields:
            a, b = self.field(name, t, random.randrange(8) if only is None else form, depth)
            end = ',' if a is None or random.randrange(6) else ' '
            left.append(name + end if a is None else f'{name}: {a}{end}')
            right.append(f'{name}: {b}')
        if ty.startswith('valarm::'):
            right.append(f'action: ikal::Text::from("{ty[8:].upper()}")')
        pad = '    ' * (depth + 2)
        body = ''.join(f'{pad}{x}\n' for x in left)
        macro = '{\n' + body + '    ' * (depth + 1) + '}'
        literal = f'ikal::{ty} {{ {", ".join(right)}{", " if right else ""}..Default::default() }}'
        return macro, literal


def write(n, ty, only=None, form=None):
    case = Case()
    macro, literal = case.object(ty, 0, form, only)
    if ty.startswith('valarm::'):
        name = ty[8:]
        macro = f'ikal::valarm! {{\n        @{name.lower()},' + macro[1:]
        literal = f'ikal::VAlarm::{name}({literal})'
        ty = 'VAlarm'
    else:
        macro = f'ikal::{ty.lower()}! {macro}'
    holes = ', '.join(f'"{x}"' for x in case.holes)
    return f'''
fn case_{n}(h: &Holes) -> Outcome {{
{''.join(case.locals)}    h.begin();
    let built = {macro};
    let given = h.begin();
    let wanted = (|| -> Result<ikal::{ty}, ikal::Error> {{ Ok({literal}) }})();
    compare(built, wanted, given, h.begin())
}}
''', f'    Case {{ kind: "{ty}", holes: &[{holes}], run: case_{n} }},\n'


cases = []
for ty in ['VEvent', 'VTodo', 'VJournal', 'VFreebusy', 'VTimezone', 'VCalendar', 'valarm::Audio', 'valarm::Display', 'valarm::Email']:
    for form in range(8):
        # Every field, in its order, each written in this way.
        cases.append((ty, list(FIELDS[ty].items()), form))
    for _ in range(6):
        cases.append((ty, None, None))
out = '// Written by tools/macros.py.\n#![allow(clippy::all, unknown_lints, unused_parens, float_literal_f32_fallback)]\n\nuse super::{Case, Holes, Outcome, compare};\n'
table = ''
for n, (ty, only, form) in enumerate(cases):
    f, c = write(n, ty, only, form)
    out += f
    table += c
out += '\npub const CASES: &[Case] = &[\n' + table + '];\n'
Path(__file__).parent.parent.joinpath('sim/macros/src/generated.rs').write_text(out)
