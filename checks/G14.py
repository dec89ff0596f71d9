"""G14: HTTP dates denote the right instant."""

from httpolice import Request, Response
from httpolice.structure import FieldName, Unavailable
from sx.ctx import Task

FUNCTIONS = [
    'httpolice.syntax.rfc7231.HTTP_date', 'httpolice.syntax.rfc7231._to_date',
    'httpolice.syntax.rfc7231._to_time',
    'httpolice.syntax.rfc7231._to_datetime',
    'httpolice.syntax.rfc7231._from_asctime',
    'httpolice.syntax.rfc7231._obsolete_date',
    'httpolice.syntax.rfc7231._check_day_of_week',
    'httpolice.parse.parse', 'datetime (the pure Python implementation)']
BOUNDS = {
    'quick': 'every string of the three formats with years 0000-0099, '
             '1900-2099: all month names, a claimed '
             'weekday per month, '
             'every digit symbolic (the date with a fixed time, the time with '
             'three dates)',
    'thorough': 'the same with all years, and in every header that has a '
                'date',
}
LEVEL_NOTE = 'the thorough tier covers all well-formed dates and, apart, times of day'
OUTSIDE = ('strings in no format (decided by G11, G12); the C implementation '
           'of datetime; leap seconds, which the program documents as '
           'impossible times')
ASSUMPTIONS = ['_pydatetime agrees with the C implementation of datetime',
               'ref: month lengths, the Gregorian leap year rule and '
               'Sakamoto\'s formula for the day of the week']

DAYS = ('Monday', 'Tuesday', 'Wednesday', 'Thursday', 'Friday', 'Saturday',
        'Sunday')
MONTHS = ('Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep',
          'Oct', 'Nov', 'Dec')
LENGTH = (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)
SHIFT = (0, 3, 2, 5, 0, 3, 5, 1, 4, 6, 2, 4)


def digits(ctx, name, n):
    b = ctx.bytes(name, n, b'0123456789')
    v = 0
    for i in range(n):
        v = v * 10 + (b[i] - 48)
    return b, v


def bool_int(c):
    return c * 1


def dated(ctx, header, form, month, time_free, date_free, dows, centuries=()):
    dow = ctx.choice('dow', dows)
    if date_free:
        d, day = digits(ctx, 'd', 2)
        y, year = digits(ctx, 'y', 2)
        if form != 'rfc850':
            # the solver gets the year within a century at a time
            c = ctx.choice('century', centuries)
            y = b'%02d' % c + y
            year = 100 * c + year
    else:
        d, day = ((b'29', 29), (b'07', 7), (b'31', 31))[ctx.choice('dd', range(3))]
        y, year = (b'94', 94) if form == 'rfc850' else (b'1994', 1994)
    if form == 'rfc850':
        year = 1900 + year
    if form == 'asctime' and ctx.flag('pad'):
        # one digit after a space
        d, day = (b' ' + d[1:], d[1] - 48)
    if time_free:
        h, hour = digits(ctx, 'h', 2)
        m, minute = digits(ctx, 'm', 2)
        s, second = digits(ctx, 's', 2)
    else:
        h, m, s = b'23', b'59', b'58'
        hour, minute, second = 23, 59, 58
    name = DAYS[dow].encode('ascii')
    mon = MONTHS[month].encode('ascii')
    clock = h + b':' + m + b':' + s
    if form == 'imf':
        value = name[:3] + b', ' + d + b' ' + mon + b' ' + y + b' ' + clock + \
            b' GMT'
    elif form == 'rfc850':
        value = name + b', ' + d + b'-' + mon + b'-' + y + b' ' + clock + \
            b' GMT'
    else:
        value = name[:3] + b' ' + mon + b' ' + d + b' ' + clock + b' ' + y

    if header in ('If-Modified-Since', 'If-Unmodified-Since', 'If-Range'):
        msg = Request('http', 'GET', '/', 'HTTP/1.1', [(header, value)], b'')
    else:
        msg = Response('HTTP/1.1', 200, 'OK', [(header, value)], b'')
    got = msg.headers[FieldName(header)].value
    ids = [c.id for c in msg.notices]
    ctx.check(1000 not in ids, 'a well-formed date is parsed', value)

    leap = ((year % 4 == 0) & (year % 100 != 0)) | (year % 400 == 0)
    last = LENGTH[month]
    if month == 1:
        okay = (day >= 1) & ((day <= 28) | ((day == 29) & leap))
    else:
        okay = (day >= 1) & (day <= last)
    good_date = okay & (year >= 1)
    good_time = (hour < 24) & (minute < 60) & (second < 60)
    good = good_date & good_time
    yy = year - 1 if month < 2 else year
    # Sakamoto, 0 = Sunday
    real = (yy + yy // 4 - yy // 100 + yy // 400 + SHIFT[month] + day) % 7
    wrong = real != (dow + 1) % 7

    ctx.check(ids.count(1107) == (form != 'imf'), 'obsolete formats', ids)
    ctx.check((ids.count(1222) == 1) == (good_date == False),   # noqa: E712
              'impossible dates', value, ids)
    ctx.check((ids.count(1223) == 1) == (good_time == False),   # noqa: E712
              'impossible times', value, ids)
    ctx.check((ids.count(1108) == 1) == (good & wrong), 'wrong weekdays',
              value, ids)
    ctx.check(len(ids) == len(set(ids)), 'each reported once')
    ctx.check(isinstance(got, Unavailable) == (good == False),  # noqa: E712
              'an impossible date has no value', value)
    if isinstance(got, Unavailable):
        ctx.cover('impossible')
    else:
        ctx.cover('wrong weekday' if 1108 in ids else 'fine')
        ctx.check((got.year == year) & (got.month == month + 1) &
                  (got.day == day) & (got.hour == hour) &
                  (got.minute == minute) & (got.second == second) &
                  (got.microsecond == 0) & (got.tzinfo is None),
                  'the instant', value)
    for c in msg.notices:
        if c.id == 1108:
            ctx.check(c.context['claimed'] == DAYS[dow], 'claimed day')
            for i in range(7):
                if c.context['actual'] == DAYS[i]:
                    ctx.check(real == (i + 1) % 7, 'actual day')
                    break
            else:
                ctx.check(False, 'a weekday', c.context['actual'])
    ctx.observe(ids)


def h_date(ctx, header, form, month, dows, centuries):
    dated(ctx, header, form, month, False, True, dows, centuries)


def h_time(ctx, header, form, month, dows):
    dated(ctx, header, form, month, True, False, dows)


HEADERS = ['Date', 'Last-Modified', 'If-Modified-Since',
           'If-Unmodified-Since', 'If-Range', 'Retry-After', 'Expires']


def tasks(tier):
    out = []
    t = tier == 'thorough'
    expect = ('impossible', 'wrong weekday', 'fine')
    for f in ('rfc850', 'asctime', 'imf'):
        if f == 'rfc850':
            years = [()]
        elif t:
            years = [(c,) for c in range(100)]
        else:
            years = [(c,) for c in CENTURIES[f]]
        for m in range(12):
            dows = tuple(range(7)) if t else (m % 7,)
            for y in years:
                out.append(Task('h_date', dict(
                    header='Date', form=f, month=m, centuries=y,
                    dows=dows),
                    expect=expect))
            if t or m == 6:
                out.append(Task('h_time', dict(header='Date', form=f, month=m,
                                               dows=tuple(range(7))),
                                expect=expect))
        for i, h in enumerate(HEADERS[1:]):
            for m in (range(12) if t else (11 - i,)):
                out.append(Task('h_date', dict(
                    header=h, form=f, month=m,
                    centuries=() if f == 'rfc850' else (20,),
                    dows=(i,))))
    return out


# leap and other centuries, the ends of the calendar
CENTURIES = {'imf': (0, 19, 20), 'asctime': (20,)}
