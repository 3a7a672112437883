"""C16: datetimes. Oracle: days-from-civil arithmetic and an independent zone database reader; a monitor compares every script-visible result under eight zones."""
import datetime
import json
import os
import re
import subprocess
import sys
import time
import zoneinfo

from vf.host import execute, model_of
from vf.lang import num_literal
from vf.run import Violation
from vf.values import show, tname

RULE = ('A case is one datetime, one pair, one text or one tuple of components, under one process time zone (TZ set and tzset called; a sample again in a process started with that TZ). '
        'Components over the stated ranges with edges (month ends, leap years, century years, every roll-over direction, ints and floats, literals and variables); '
        'instants dense around every offset change of the zone between 1900 and 2100 and over years 100-9000; offsets to +-1e12 ms; datetimes as host dates, naive, with microseconds and '
        'aware in other zones; ISO texts valid, near-valid and invalid. Non-trivial: every case; distinct by inputs and zone.')
REQUIRED = ('news', 'rollovers', 'getters', 'sums', 'pairs', 'round_trips', 'transition_round_trips', 'ambiguous', 'skipped_gap', 'fractional_offset', 'aware', 'dates', 'parse_valid', 'parse_null', 'zones',
            'shifted_by_zone', 'out_of_range', 'processes', 'text_paths', 'literal_news')
ASSUMPTIONS = ('Round trips are judged where the local offset is a whole number of minutes and the local time exists; of an ambiguous local time either offset is accepted.',
               'Lenient ISO 8601 spellings (no offset, 24:00, basic format, week dates, other fraction lengths) may parse to null or to the exact value.')

ZONES = ('UTC', 'America/New_York', 'Europe/London', 'Asia/Kolkata', 'Asia/Kathmandu', 'Australia/Lord_Howe', 'Pacific/Chatham', 'Etc/GMT+12')
MORE_ZONES = ('America/St_Johns', 'Pacific/Apia', 'America/Caracas', 'Africa/Casablanca', 'Asia/Tehran', 'Pacific/Kiritimati', 'Antarctica/Troll', 'Europe/Dublin')


# ---------------------------------------------------------------- calendar arithmetic

def days_from_civil(year, month, day):
    """Days since 1970-01-01 in the proleptic Gregorian calendar"""
    year -= month <= 2
    era = year // 400
    yoe = year - era * 400
    doy = (153 * (month + (-3 if month > 2 else 9)) + 2) // 5 + day - 1
    return era * 146097 + yoe * 365 + yoe // 4 - yoe // 100 + doy - 719468


def civil_from_days(days):
    days += 719468
    era = days // 146097
    doe = days - era * 146097
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    month = mp + (3 if mp < 10 else -9)
    return yoe + era * 400 + (month <= 2), month, doy - (153 * mp + 2) // 5 + 1


def normalise(year, month, day, hour=0, minute=0, second=0, millisecond=0):
    """The local milliseconds since 1970 of (possibly out-of-range) components"""
    year, month = year + (month - 1) // 12, (month - 1) % 12 + 1
    days = days_from_civil(year, month, 1) + day - 1
    return (((days * 24 + hour) * 60 + minute) * 60 + second) * 1000 + millisecond


def parts_of(ms):
    days, ms = divmod(ms, 86400000)
    return civil_from_days(days) + (ms // 3600000, ms // 60000 % 60, ms // 1000 % 60, ms % 1000)


def ms_of(value):
    """Local milliseconds (floored) of a naive datetime"""
    return normalise(value.year, value.month, value.day, value.hour, value.minute, value.second, value.microsecond // 1000)


LOW, HIGH = normalise(1, 1, 1), normalise(10000, 1, 1)


class Zone:
    """The zone database, read independently of the C library"""

    def __init__(self, name):
        self.name = name
        self.info = zoneinfo.ZoneInfo(name)

    def offsets(self, naive):
        """The UTC offsets (seconds) a local time exists with"""
        out = []
        for fold in (0, 1):
            try:
                aware = naive.replace(tzinfo=self.info, fold=fold)
                offset = aware.utcoffset().total_seconds()
                utc = (naive - datetime.timedelta(seconds=offset)).replace(tzinfo=datetime.timezone.utc)
                if utc.astimezone(self.info).replace(tzinfo=None, fold=0) == naive.replace(fold=0) and offset not in out:
                    out.append(offset)
            except OverflowError:
                return None
        return out

    def local(self, utc_ms):
        """Local milliseconds of an instant, None out of range"""
        try:
            utc = datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc) + datetime.timedelta(milliseconds=utc_ms)
            return ms_of(utc.astimezone(self.info).replace(tzinfo=None))
        except OverflowError:
            return None

    def transitions(self, first, last):
        """UTC seconds of the offset changes between two years"""
        out = []
        start = days_from_civil(first, 1, 1) * 86400
        end = days_from_civil(last, 1, 1) * 86400
        step = 86400 * 9

        def offset(seconds):
            return (datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc) + datetime.timedelta(seconds=seconds)).astimezone(self.info).utcoffset()
        before = offset(start)
        for seconds in range(start + step, end, step):
            now = offset(seconds)
            if now != before:
                low, high = seconds - step, seconds
                while high - low > 1:
                    middle = (low + high) // 2
                    if offset(middle) == before:
                        low = middle
                    else:
                        high = middle
                out.append(high)
                before = now
        return out


# ---------------------------------------------------------------- cases

GETTERS = ('datetimeYear', 'datetimeMonth', 'datetimeDay', 'datetimeHour', 'datetimeMinute', 'datetimeSecond', 'datetimeMillisecond')
GET = 'arrayNew(' + ', '.join(f'{name}(d)' for name in GETTERS) + ')'
_MODELS = {}


def run(text, **globals_):
    if text not in _MODELS:
        _MODELS[text] = model_of(text)
    out = execute(_MODELS[text], globals_)
    if out.kind != 'value':
        raise Violation(f'a datetime script failed: {out.text()}', script=text)
    return out.value


def same_parts(observed, ms):
    return type(observed) is list and len(observed) == 7 and all(type(got) in (int, float) and got == want for got, want in zip(observed, parts_of(ms)))


def new_case(mon, rng, args, zone):
    with mon.case(lambda: {'datetimeNew': args, 'TZ': zone.name}, key=(zone.name, 'new', tuple(args))):
        mon.count('news')
        ms = normalise(*[int(arg) for arg in args])
        year, month, day = parts_of(ms)[:3] if LOW <= ms < HIGH else (0, 0, 0)
        if ms < HIGH and (year, month, day) != (int(args[0]), int(args[1]), int(args[2])):
            mon.count('rollovers')
        names = 'abcdefg'[:len(args)]
        if rng.random() < 0.1:
            mon.count('literal_news')
            texts = [('-' if arg < 0 else '') + (num_literal(abs(arg)) if rng.random() < 0.5 else f'{abs(int(arg))}.0') for arg in args]
            text = f'd = datetimeNew({", ".join(texts)})\nreturn arrayNew(d, {GET})'
            out = execute(text, {})
            if out.kind != 'value':
                raise Violation(f'datetimeNew failed: {out.text()}', script=text)
            value, got = out.value
        else:
            used = dict(zip('abcdefg', args))
            value, got = run(f'd = datetimeNew({", ".join(names)})\nreturn arrayNew(d, {GET})', **used)
        strict = 100 <= args[0] <= 9000 and abs(args[1]) <= 40 and abs(args[2]) <= 10000 and all(abs(arg) <= 5000 for arg in args[3:])
        if value is None and not strict:
            mon.count('out_of_range')
            return
        if not LOW <= ms < HIGH:
            raise Violation('datetimeNew returned a value beyond the datetime range', observed=show(value))
        if tname(value) != 'datetime':
            raise Violation('datetimeNew did not return a datetime', observed=show(value), expected=parts_of(ms))
        mon.count('getters', 7)
        if not same_parts(got, ms):
            raise Violation('the components of datetimeNew are not those of calendar arithmetic', observed=show(got), expected=parts_of(ms))
        # The same instant written normalised is the same value
        if run('return arrayNew(d == datetimeNew(a, b, c, e, f, g, h), datetimeNew(a, b, c, e, f, g, h) - d)', d=value, **dict(zip('abcefgh', map(float, parts_of(ms))))) != [True, 0] and parts_of(ms)[0] >= 100:
            raise Violation('the normalised components denote another datetime', expected=parts_of(ms))


SUM = 'e = d + n\nf = n + d\nreturn arrayNew(e - d, f - d, d - e, e, f == e, (e + (0 - n)) == d)'


def sum_case(mon, d, n, zone):
    with mon.case(lambda: {'datetime': repr(d), 'n': n, 'TZ': zone.name}, key=(zone.name, 'sum', repr(d), n)):
        mon.count('sums')
        diff, diff2, back, shifted, equal, restored = run(SUM, d=d, n=n)
        if not isinstance(d, datetime.datetime):
            base = datetime.datetime(d.year, d.month, d.day)
            mon.count('dates')
        elif d.tzinfo is not None:
            local = zone.local(int((d - datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc)) // datetime.timedelta(milliseconds=1)))
            mon.count('aware')
            if local is None:
                return
            year, month, day, hour, minute, second, ms = parts_of(local)
            base = datetime.datetime(year, month, day, hour, minute, second, ms * 1000)
        else:
            base = d
        target = ms_of(base) + n
        if not LOW <= target < HIGH:
            mon.count('out_of_range')
            return
        if diff != n or diff2 != n or back != -n or equal is not True or restored is not True:
            raise Violation('adding n milliseconds and subtracting the original does not give n', observed=show([diff, diff2, back, equal, restored]), expected=n)
        if tname(shifted) != 'datetime':
            raise Violation('datetime + number is not a datetime', observed=show(shifted))
        got = run(f'return {GET}', d=shifted)
        if zone.name == 'UTC' and not same_parts(got, int(target)):
            raise Violation('datetime + number is another datetime', observed=show(got), expected=parts_of(int(target)))


def pair_case(mon, a, b, zone):
    with mon.case(lambda: {'a': repr(a), 'b': repr(b), 'TZ': zone.name}, key=(zone.name, 'pair', repr(a), repr(b))):
        mon.count('pairs')
        diff, other, equal, order = run('n = a - b\nreturn arrayNew(n, b - a, (b + n) == a, systemCompare(a, b))', a=a, b=b)
        if type(diff) not in (int, float) or diff != int(diff) or other != -diff or equal is not True:
            raise Violation('the difference of two datetimes does not lead from one to the other', observed=show([diff, other, equal]))
        if order != (a > b) - (a < b) or (diff > 0) - (diff < 0) != order:
            raise Violation('difference and order disagree', observed=show([diff, order]))
        if zone.name == 'UTC' and diff != ms_of(a) - ms_of(b):
            raise Violation('the difference of two datetimes is wrong', observed=diff, expected=ms_of(a) - ms_of(b))


ROUND = ("text = datetimeISOFormat(d)\np = datetimeISOParse(text)\nd2 = d\n"
         f"return arrayNew(text, p, p == d, {GET}, '' + d, stringNew(d), jsonStringify(d), datetimeISOFormat(p), datetimeISOFormat(d, true), datetimeISOParse(datetimeISOFormat(d, true)), d - p, datetimeISOFormat(d, false))")
ISO = re.compile(r'(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(?:\.(\d+))?(Z|[+-]\d\d:\d\d)', re.ASCII)


def offset_seconds(text):
    if text == 'Z':
        return 0
    return (-1 if text[0] == '-' else 1) * (int(text[1:3]) * 60 + int(text[4:6])) * 60


def round_case(mon, d, zone, transition=False, globals_d=None):
    """ISO round trip of a naive local datetime (globals_d: the same instant as another host value)"""
    with mon.case(lambda: {'datetime': repr(d if globals_d is None else globals_d), 'TZ': zone.name}, key=(zone.name, 'iso', repr(d), repr(globals_d))):
        offsets = zone.offsets(d)
        if offsets is None:
            mon.count('range_edge')
            return
        result = run(ROUND, d=d if globals_d is None else globals_d)
        text, parsed, equal, got, plus, new, as_json, again, date_text, date_parsed, delta, text2 = result
        mon.count('getters', 7)
        if not same_parts(got, ms_of(d)):
            raise Violation('the component getters do not give the local parts', observed=show(got), expected=parts_of(ms_of(d)))
        if type(date_text) is not str or date_text != f'{d.year:04d}-{d.month:02d}-{d.day:02d}':
            raise Violation('the ISO date is not the local date', observed=show(date_text))
        if tname(date_parsed) != 'datetime' or date_parsed != datetime.datetime(d.year, d.month, d.day):
            raise Violation('the ISO date does not parse to local midnight', observed=show(date_parsed))
        if not offsets:
            mon.count('skipped_gap')
            return
        if any(offset % 60 for offset in offsets):
            mon.count('fractional_offset')
            return
        mon.count('round_trips')
        if transition:
            mon.count('transition_round_trips')
        if len(offsets) > 1:
            mon.count('ambiguous')
        if any(offsets):
            mon.count('shifted_by_zone')
        match = ISO.fullmatch(text) if type(text) is str else None
        if match is None:
            raise Violation('datetimeISOFormat is not an ISO datetime', observed=show(text))
        fraction = (match.group(7) or '0').ljust(3, '0')
        written = normalise(*[int(match.group(ix)) for ix in range(1, 7)], int(fraction[:3]))
        if written != ms_of(d) and (match.group(8) != 'Z'):
            raise Violation('the ISO text does not show the local time', text=text)
        if written - offset_seconds(match.group(8)) * 1000 not in [ms_of(d) - int(offset) * 1000 for offset in offsets]:
            raise Violation('the ISO text denotes another instant', text=text, offsets=offsets)
        if len(fraction) > 3 and fraction[3:].strip('0'):
            raise Violation('the ISO text is finer than a millisecond', text=text)
        if tname(parsed) != 'datetime' or getattr(parsed, 'tzinfo', None) is not None:
            raise Violation('the ISO text does not parse to a local datetime', text=text, observed=show(parsed))
        floor = d.replace(microsecond=d.microsecond // 1000 * 1000, fold=0)
        if parsed.replace(fold=0) != floor or type(delta) not in (int, float) or abs(delta) > 1 or (d.microsecond % 1000 == 0 and (equal is not True or delta != 0)):
            raise Violation('the ISO round trip does not give the datetime back', text=text, observed=repr(parsed), expected=repr(floor))
        mon.count('text_paths', 4)
        if {plus, new, text2} != {text} or as_json != f'"{text}"':
            raise Violation('text conversions of one datetime differ', texts=[text, plus, new, as_json, text2])
        if type(again) is not str:
            raise Violation('the parsed datetime has no text', observed=show(again))
        if len(offsets) == 1 and d.microsecond % 1000 == 0 and again != text:
            raise Violation('formatting the parsed datetime gives another text', text=text, again=again)


# ---------------------------------------------------------------- ISO texts

LENIENT = re.compile(r'(\d{4}-?\d\d-?\d\d|\d{4}-?W\d\d(-?\d)?|\d{4}-?\d{3}|\d{4}-\d\d)([T ]\d\d(:?\d\d(:?\d\d([.,]\d+)?)?)?)?(Z|z|[+-]\d\d(:?\d\d(:?\d\d(\.\d+)?)?)?)?', re.ASCII)


def month_days(year, month):
    return (31, 29 if year % 4 == 0 and (year % 100 != 0 or year % 400 == 0) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)[month - 1]


def iso_meaning(text, zone):
    """('value', ms, slack) | ('null',) | ('open',)"""
    match = re.fullmatch(r'(\d{4})-(\d\d)-(\d\d)', text, re.ASCII)
    if match:
        year, month, day = map(int, match.groups())
        if year >= 1 and 1 <= month <= 12 and 1 <= day <= month_days(year, month):
            return 'value', normalise(year, month, day)
        return ('null',)
    match = ISO.fullmatch(text)
    if match:
        year, month, day, hour, minute, second = (int(match.group(ix)) for ix in range(1, 7))
        offset = match.group(8)
        if not (year >= 1 and 1 <= month <= 12 and 1 <= day <= month_days(year, month) and hour <= 24 and minute <= 59 and second <= 59) or (hour == 24 and (minute or second)):
            return ('null',) if second != 60 else ('open',)
        if offset != 'Z' and (int(offset[4:]) > 59 or int(offset[1:3]) > 23):
            return ('null',) if int(offset[4:]) > 59 and int(offset[1:3]) > 24 else ('open',)
        if hour == 24 or len(match.group(7) or '') > 6:
            return ('open',)
        utc = normalise(year, month, day, hour, minute, second, int((match.group(7) or '0').ljust(3, '0')[:3])) - offset_seconds(offset) * 1000
        local = zone.local(utc)
        if local is None:
            return ('null',)
        return 'value', local
    if LENIENT.fullmatch(text.strip()) or text.endswith('\n') or not text.isascii() or re.search(r'[tz]', text):
        return ('open',)
    return ('null',)


def parse_case(mon, text, zone):
    with mon.case(lambda: {'datetimeISOParse': text, 'TZ': zone.name}, key=(zone.name, 'parse', text)):
        value, got = run(f'd = datetimeISOParse(s)\nreturn arrayNew(d, if(d == null, null, {GET}))', s=text)
        meaning = iso_meaning(text, zone)
        if value is not None and (type(value) is not datetime.datetime or value.tzinfo is not None):
            raise Violation('datetimeISOParse returned another type', observed=show(value))
        if meaning[0] == 'null':
            mon.count('parse_null')
            if value is not None:
                raise Violation('text that is not a valid ISO date or datetime does not parse to null', observed=show(value))
        elif meaning[0] == 'open':
            mon.count('parse_open')
        else:
            mon.count('parse_valid')
            if value is None:
                # Python's range ends at the year 9999: instants at the edge may be unrepresentable on the way
                if abs(meaning[1] - LOW) < 2 * 86400000 or abs(meaning[1] - HIGH) < 2 * 86400000:
                    mon.count('range_edge')
                    return
                raise Violation('a valid ISO text parses to null', expected=parts_of(meaning[1]))
            if not same_parts(got, meaning[1]):
                raise Violation('the ISO text parses to another local time', observed=show(got), expected=parts_of(meaning[1]))


BAD = ('', ' ', 'x', '2024', '2024-', '2024-01', '2024-1-1', '2024-01-1', '2024-13-01', '2024-00-01', '2024-01-00', '2024-02-30', '2023-02-29', '1900-02-29', '2000-02-29', '2100-02-29', '2024-04-31', '0000-01-01',
       '0001-01-01', '9999-12-31', '2024-99-99', '20240101', '2024/01/01', '01-01-2024', '-2024-01-01', '+2024-01-01', '12024-01-01', '2024-01-01T', '2024-01-01T12', '2024-01-01T12:30', '2024-01-01T12:30:00',
       '2024-01-01T12:30:00z', '2024-01-01t12:30:00Z', '2024-01-01 12:30:00Z', '2024-01-01T12:30:00ZZ', '2024-01-01T12:30:00+', '2024-01-01T12:30:00+05', '2024-01-01T12:30:00+0530', '2024-01-01T12:30:00+5:30',
       '2024-01-01T12:30:00+05:60', '2024-01-01T12:30:00+24:00', '2024-01-01T12:30:00+99:99', '2024-01-01T12:30:00-00:00', '2024-01-01T12:30:00+23:59', '2024-01-01T12:30:00-23:59', '2024-01-01T24:00:00Z',
       '2024-01-01T24:00:01Z', '2024-01-01T25:00:00Z', '2024-01-01T12:60:00Z', '2024-01-01T12:30:60Z', '2024-01-01T12:30:61Z', '2024-01-01T12:30:00.Z', '2024-01-01T12:30:00.1Z', '2024-01-01T12:30:00.12Z',
       '2024-01-01T12:30:00.1234567Z', '2024-01-01T12:30:00,5Z', '2024-01-01T12:30:00.5', '2024-02-30T12:30:00Z', '2023-02-29T00:00:00+00:00', '2024-13-01T00:00:00Z', '0000-01-01T00:00:00Z',
       '0001-01-01T00:00:00+14:00', '0001-01-01T00:00:00Z', '9999-12-31T23:59:59-12:00', '9999-12-31T23:59:59Z', '9999-12-31T23:59:59.999Z', '2024-01-01T12:30:00Z ', ' 2024-01-01T12:30:00Z', '2024-01-01 ', ' 2024-01-01',
       '2024-01-01\n', '\n2024-01-01', '2024-01-01T12:30:00Z\n', '２０２４-01-01', '2024-01-0１', '2024-01-01T12:30:0１Z', '2024-W01-1', '2024-001', 'today', 'null', '2024-01-01x', 'x2024-01-01', '2024-01-01T-1:00:00Z',
       '2024--1-01', '2024-01-01T12:30:00+-5:00', '2024-01-01T1:30:00Z', '2024-01-01T12:3:00Z', '2024_01_01', '1e10-01-01', '2024-01-01T12:30:00 +05:30', '2024-01-01T12:30:00UTC', '2024-01-01T12:30:00[UTC]',
       '2024-01-01T12:30:00+05:30Z', '2024-01-01T12.5Z', '2024-01-01T12:30.5Z', '2024-01-01\x00', '2024-01-01T12:30:00\x00Z', '٢٠٢٤-01-01')


def iso_text(rng, zone_transitions):
    pick = rng.random()
    if pick < 0.15:
        return rng.choice(BAD)
    if pick < 0.5:
        year, month = rng.choice((rng.randint(1, 9999), 2024, 2000, 1900, 2023)), rng.randint(1, 12)
        day = rng.choice((1, 28, 29, 30, 31, rng.randint(1, 31)))
        if rng.random() < 0.1:
            month, day = rng.randint(0, 19), rng.randint(0, 39)
    else:
        year, month, day = parts_of(rng.choice(zone_transitions or [0]) * 1000 + rng.randint(-3, 3) * 86400000)[:3]
    text = f'{year:04d}-{month:02d}-{day:02d}'
    if rng.random() < 0.8:
        hour, minute, second = rng.choice((0, 1, 2, 23, rng.randint(0, 23))), rng.choice((0, 30, 59, rng.randint(0, 59))), rng.choice((0, 59, rng.randint(0, 59)))
        if rng.random() < 0.05:
            hour, minute, second = rng.choice(((24, 0, 0), (24, 0, 1), (23, 60, 0), (23, 59, 60), (99, 0, 0), (12, 99, 0), (12, 0, 99)))
        text += f'T{hour:02d}:{minute:02d}:{second:02d}'
        if rng.random() < 0.5:
            text += '.' + ''.join(rng.choice('0123456789') for _ in range(rng.choice((1, 2, 3, 3, 3, 4, 5, 6, 6, 7))))
        text += rng.choice(('Z', '+00:00', '-00:00', '+05:30', '-08:00', '+14:00', '-12:00', '+12:45', f'{rng.choice("+-")}{rng.randint(0, 25):02d}:{rng.randint(0, 61):02d}'))
    if rng.random() < 0.12 and text:
        ix = rng.randrange(len(text))
        text = rng.choice((text[:ix] + text[ix + 1:], text[:ix] + rng.choice('0123456789-:TZ+. xW\n/') + text[ix + 1:], text[:ix] + rng.choice('09-:TZ+. ') + text[ix:], text + rng.choice(' \nZ0x')))
    return text


# ---------------------------------------------------------------- workload

def components(rng):
    year = rng.choice((rng.randint(100, 9000), rng.randint(1890, 2110), 100, 9000, 2000, 1900, 2024, 2100, 400, 1600, 2023, 4))
    year = max(year, 100)
    month = rng.choice((rng.randint(-30, 40), rng.randint(1, 12), 1, 2, 3, 12, 0, -11, -12, 13, 24, 25, -30, 40))
    day = rng.choice((rng.randint(-10000, 10000), rng.randint(-40, 70), rng.randint(1, 31), 0, 1, -1, 28, 29, 30, 31, 32, 60, 61, 365, 366, 367, -365, -366, 730, 731, 1461, 10000, -10000))
    args = [year, month, day]
    for low, high in ((0, 24), (0, 60), (0, 60), (0, 1000)):
        if rng.random() < 0.12:
            break
        args.append(rng.choice((rng.randint(-5000, 5000), rng.randint(low, high - 1), rng.randint(low, high - 1), low, high, high - 1, -1, -high, -high - 1, high * 2, 2 * high - 1, 5000, -5000)))
    return [float(arg) if rng.random() < 0.6 else arg for arg in args]


def beyond(rng):
    """Components outside the stated ranges: null or exact"""
    args = components(rng)
    for _ in range(rng.randint(1, 2)):
        ix = rng.randrange(len(args))
        args[ix] = rng.choice((rng.randint(-10 ** 5, 10 ** 5), rng.randint(-10 ** 9, 10 ** 9), rng.randint(-10 ** 11, 10 ** 11), rng.randint(-10 ** 13, 10 ** 13), 9999, 1, 99, 0, 10000, -1, 10001, -10001, 12 * 9000, 10 ** 12, -10 ** 12, 31 * 10 ** 6)) * 1.0
    return args


def instant(rng, transitions):
    """A naive local datetime, mostly near interesting boundaries"""
    pick = rng.random()
    if pick < 0.45 and transitions:
        near = rng.choice(transitions) * 1000 + rng.choice((-1, 1)) * rng.choice((0, 0, 1, 500, 1800000, 1799999, 3600000, 3599999, 900000, 86400000)) + rng.randint(-14, 14) * 3600000 + rng.choice((0, 1800000, 2700000, 900000))
        return from_ms(near), True
    if pick < 0.65:
        return from_ms(rng.randint(normalise(1890, 1, 1), normalise(2110, 1, 1))), False
    if pick < 0.9:
        return from_ms(rng.randint(normalise(100, 1, 1), normalise(9001, 1, 1))), False
    year, month = rng.choice((rng.randint(100, 9000), 2000, 2024, 1900, 1970, 2038)), rng.randint(1, 12)
    return datetime.datetime(year, month, rng.choice((1, month_days(year, month))), rng.choice((0, 23)), rng.choice((0, 59)), rng.choice((0, 59)), rng.choice((0, 999000, 1000, 10000, 100000, 500000))), False


def from_ms(ms):
    year, month, day, hour, minute, second, milli = parts_of(ms)
    return datetime.datetime(year, month, day, hour, minute, second, milli * 1000)


def other_host(rng, naive, zone):
    """The same instant as another kind of host value"""
    pick = rng.random()
    if pick < 0.4 and not (naive.hour or naive.minute or naive.second or naive.microsecond):
        return naive.date()
    offsets = zone.offsets(naive)
    if not offsets or len(offsets) > 1 or offsets[0] % 1:
        return None
    try:
        utc = naive - datetime.timedelta(seconds=offsets[0])
        if pick < 0.7:
            return utc.replace(tzinfo=datetime.timezone.utc)
        if pick < 0.85:
            return utc.replace(tzinfo=datetime.timezone.utc).astimezone(datetime.timezone(datetime.timedelta(minutes=rng.randint(-14 * 60, 14 * 60))))
        return utc.replace(tzinfo=datetime.timezone.utc).astimezone(zoneinfo.ZoneInfo(rng.choice(ZONES)))
    except OverflowError:
        return None


CHILD = '''
import json, sys
from bare_script import parse_script, execute_script
out = []
for line in json.load(sys.stdin):
    out.append(execute_script(parse_script("d = datetimeISOParse(s)\\nreturn arrayNew(datetimeISOFormat(d), datetimeISOFormat(d, true), datetimeHour(d), datetimeMinute(d), datetimeDay(d), "
                                           "datetimeISOParse(datetimeISOFormat(d)) == d, datetimeNew(datetimeYear(d), datetimeMonth(d), datetimeDay(d), datetimeHour(d), datetimeMinute(d), datetimeSecond(d), datetimeMillisecond(d)) == d)"),
                              {'globals': {'s': line}}))
print(json.dumps(out))
'''


def process_case(mon, rng, zone, transitions):
    """A process started with the TZ environment variable"""
    stamps = []
    for _ in range(300):
        naive, _ = instant(rng, transitions)
        offsets = zone.offsets(naive)
        if offsets and len(offsets) == 1 and offsets[0] % 60 == 0:
            stamps.append((naive, offsets[0]))
    texts = [(naive - datetime.timedelta(seconds=offset)).isoformat(timespec='milliseconds') + 'Z' for naive, offset in stamps]
    with mon.case({'process TZ': zone.name, 'texts': len(texts)}, key=(zone.name, 'process', rng.random())):
        environ = {**os.environ, 'TZ': zone.name, 'PYTHONPATH': os.pathsep.join(sys.path)}
        child = subprocess.run([sys.executable, '-c', CHILD], input=json.dumps(texts), capture_output=True, text=True, env=environ, timeout=120, check=False)
        if child.returncode != 0:
            raise Violation('datetime scripts fail in a process started with this TZ', stderr=child.stderr[-800:])
        mon.count('processes')
        for (naive, offset), text, result in zip(stamps, texts, json.loads(child.stdout)):
            mon.count('process_datetimes')
            minutes = int(abs(offset) // 60)
            expected = naive.isoformat(timespec='milliseconds' if naive.microsecond else 'seconds') + f'{"-" if offset < 0 else "+"}{minutes // 60:02d}:{minutes % 60:02d}'
            if result != [expected, naive.date().isoformat(), naive.hour, naive.minute, naive.day, True, True]:
                raise Violation('a datetime is wrong in a process started with this TZ', text=text, observed=result, expected=expected)


def plan(tier):
    quick = tier == 'quick'
    shards = []
    for zone in ZONES + (() if quick else MORE_ZONES):
        for _ in range(2 if quick else 8):
            shards.append(('zone', {'zone': zone, 'n': 5000 if quick else 30000, 'cost': 3}))
        shards.append(('transitions', {'zone': zone, 'cost': 3, 'years': (1900, 2101), 'every': 8 if quick else 1}))
    return shards


def at_transitions(mon, rng, zone, transitions, every):
    """Dense local times around every offset change"""
    start = rng.randrange(every)
    for seconds in transitions[start::every]:
        for minutes in list(range(-150, 151, 15)) + [rng.randint(-900, 900) for _ in range(6)]:
            local = zone.local(seconds * 1000 + minutes * 60000)
            for delta in (0, -1, 1800000, rng.choice((1, 999, 60000, 3600000))):
                round_case(mon, from_ms(local + delta), zone, True)
        text = from_ms(seconds * 1000).isoformat() + 'Z'
        parse_case(mon, text, zone)
        parse_case(mon, from_ms(seconds * 1000 - 1).isoformat(timespec='milliseconds') + '+00:00', zone)


def calendar_sweep(mon, rng, zone):
    """Every month length and roll-over at the edges of leap and century years"""
    for year in (100, 1600, 1700, 1899, 1900, 1999, 2000, 2001, 2004, 2023, 2024, 2100, 4000, 9000):
        for month in range(-30, 41):
            for day in (-31, -30, -1, 0, 1, 28, 29, 30, 31, 32):
                if rng.random() < 0.12:
                    new_case(mon, rng, [float(year), float(month), float(day)], zone)


def shard(kind, spec, rng, mon):
    before = os.environ.get('TZ')
    os.environ['TZ'] = spec['zone']
    time.tzset()
    try:
        zone = Zone(spec['zone'])
        mon.count('zones')
        transitions = zone.transitions(*spec.get('years', (1900, 2101)))
        mon.count('max_transitions', 0)
        if kind == 'transitions':
            at_transitions(mon, rng, zone, transitions, spec['every'])
            calendar_sweep(mon, rng, zone)
            for text in BAD:
                parse_case(mon, text, zone)
            for _ in range(1 if spec['every'] > 1 else 10):
                process_case(mon, rng, zone, transitions)
            return
        for _ in range(spec['n']):
            new_case(mon, rng, components(rng), zone)
            if rng.random() < 0.2:
                new_case(mon, rng, beyond(rng), zone)
            naive, near = instant(rng, transitions)
            round_case(mon, naive, zone, near)
            if rng.random() < 0.2:
                micro = naive.replace(microsecond=rng.choice((1, 999, 999999, 999500, 500, 1500, 123456, naive.microsecond)))
                round_case(mon, micro, zone, near)
            if rng.random() < 0.3:
                naive = naive.replace(hour=0, minute=0, second=0, microsecond=0) if rng.random() < 0.3 else naive
                value = other_host(rng, naive, zone)
                if value is not None:
                    mon.count('aware' if isinstance(value, datetime.datetime) else 'dates')
                    round_case(mon, naive, zone, near, value)
                    sum_case(mon, value, rng.choice((0.0, 1.0, -1.0, float(rng.randint(-10 ** 12, 10 ** 12)))), zone)
            n = rng.choice((rng.randint(-10 ** 12, 10 ** 12), rng.randint(-10 ** 12, 10 ** 12), rng.randint(-10 ** 5, 10 ** 5), rng.randint(-999, 999), 0, 1, -1, 86400000, 3600000, -3600000, 10 ** 12, -10 ** 12, 999, 1001))
            sum_case(mon, naive.replace(microsecond=rng.choice((naive.microsecond, 123457, 999999))) if rng.random() < 0.15 else naive, float(n) if rng.random() < 0.8 else n, zone)
            pair_case(mon, naive, instant(rng, transitions)[0], zone)
            parse_case(mon, iso_text(rng, transitions), zone)
    finally:
        if before is None:
            os.environ.pop('TZ', None)
        else:
            os.environ['TZ'] = before
        time.tzset()
