"""Time zones like those that applications give to their datetimes. All of them can be pickled."""
from datetime import timedelta, timezone, tzinfo

from amazon.ion.core import OffsetTZInfo


class Zone(tzinfo):
    """Tells the offset (in minutes), the share of it that is due to daylight saving time, and a name."""

    def __init__(self, *args):
        self.args = args

    def __reduce__(self):
        return type(self), self.args

    def minutes(self, dt):
        return self.args[0]

    def utcoffset(self, dt):
        minutes = self.minutes(dt)
        return None if minutes is None else timedelta(minutes=minutes)

    def dst(self, dt):
        return timedelta(hours=1)

    def tzname(self, dt):
        return 'summer'


class DaylightSaving(Zone):
    """A fixed offset that is said to be due to daylight saving time."""


class Seasonal(Zone):
    """Offsets that depend on the date: args are those of winter and of summer."""

    def _is_summer(self, dt):
        return dt is not None and 4 <= dt.month <= 9

    def minutes(self, dt):
        return self.args[self._is_summer(dt)]

    def dst(self, dt):
        return timedelta(minutes=self.args[1] - self.args[0] if self._is_summer(dt) else 0)


class Folding(Zone):
    """Every local time occurs twice: args are the offsets of the first and of the second occurrence (fold=1)."""

    def minutes(self, dt):
        return self.args[0 if dt is None else dt.fold]


class Unknowing(tzinfo):
    """A tzinfo does not have to know the offset; datetime treats what it belongs to as naive then."""

    def __reduce__(self):
        return Unknowing, ()

    def utcoffset(self, dt):
        return None

    dst = tzname = utcoffset


KINDS = ('timezone', 'seasonal', 'offset', 'daylight saving', 'folding', 'seasonal', 'folding')


def gen_zone(d, off, month, year=2000):
    """(kind, tzinfo, fold) for a local time in that month whose offset is ``off`` minutes, or unknown."""
    if off is None:
        return ('unknowing', Unknowing(), d.draw(1)) if d.boolean() else ('naive', None, d.draw(1))
    kind = d.choice(KINDS)
    other = max(-1439, min(1439, off + d.choice((60, -60, 30, 0))))
    fold = d.draw(1)
    if kind == 'seasonal' and year not in (1, 2, 9999, 9998):
        return kind, Seasonal(other, off) if 4 <= month <= 9 else Seasonal(off, other), fold
    if kind == 'folding':
        return kind, Folding(other, off) if fold else Folding(off, other), fold
    if kind == 'daylight saving':
        return kind, DaylightSaving(off), fold
    if kind == 'offset':
        return kind, OffsetTZInfo(timedelta(minutes=off)), fold
    return kind, timezone(timedelta(minutes=off)), fold
