"""What C07 and C08 share: the events of a reader do not depend on how its input arrives."""
from ..common import *


def make_reader(form, raw=False):
    if form == 'binary':
        r = binary_reader()
    else:
        r = text_reader(is_unicode=(form == 'unicode'))
    return r if raw else managed_reader(r)


def compare(whole, got, about):
    keys, error = whole
    keys2, error2 = got
    n = min(len(keys), len(keys2))
    for i in range(n):
        if keys[i] != keys2[i]:
            raise Violation('event %d is %r in pieces but %r in one piece\n%s' % (i, keys2[i], keys[i], about))
    # when the data are refused the event at which this happens may differ (values are parsed when they are needed)
    if (error is None) != (error2 is None) or error is None and len(keys) != len(keys2):
        raise Violation('%d events (then %s) in pieces, %d events (then %s) in one piece\n%s' % (
            len(keys2), error2, len(keys), error, about))


def against(want, whole, about):
    """What was read in one piece, against the values the data denote (when that is known)."""
    if want is None:
        return
    keys, error = whole
    if error:
        raise Violation('refused in one piece: %s\n%s' % (error, about))
    expect(want, values_of_keys(keys), 'expected against one piece: %s' % about)


def pieces(d, data, form, want, about):
    """Non-blocking reader fed with generated pieces, against one piece and, if given, the expected events."""
    chunks = gen_chunks(d, data)
    d.case((data, tuple(len(c) for c in chunks), form), '%s in pieces of %r' % (clip(data, 300), [len(c) for c in chunks][:40]))
    d.nontrivial(len(chunks) > 1)
    d.label('pieces: %s' % ('1' if len(chunks) == 1 else '2-4' if len(chunks) < 5 else '5+'))
    about = '%s\npieces: %s' % (about, clip(chunks))
    key = loose_key if want is None else event_key
    got = read_keys(make_reader(form), chunks, key, gen_lag(d))
    whole = read_keys(make_reader(form), [data], key)
    against(want, whole, about)
    compare(whole, got, about)
    d.label('refused' if whole[1] else 'accepted')


def blocking_keys(source, size, form, key, lag=0):
    """The event keys of a blocking reader: (keys, error name)."""
    reader = blocking_reader(make_reader(form), source, buffer_size=size)

    def next_event():
        try:
            e = reader.send(NEXT_EVENT)
        except (RecursionError, MemoryError):
            raise
        except Exception as err:
            raise ReadError(err)
        if e.event_type is IonEventType.INCOMPLETE:
            raise Violation('the blocking reader answered INCOMPLETE')
        return None if e.event_type is IonEventType.STREAM_END else e
    return collect_keys(next_event, key, lag)


def blocking(d, data, form, want, about):
    """Blocking reader over a file whose reads may be short, with a generated buffer size."""
    size = d.choice((1, 2, 3, 5, 7, 16, 64, 1000, 8192))
    sizes = [1 + d.small(12) for _ in range(1 + d.small(3))]
    d.case((data, size, tuple(sizes), form), '%s buffer size %d, reads of %r' % (clip(data, 300), size, sizes))
    d.nontrivial(len(data) > min(size, max(sizes)))
    about = '%s\nbuffer size %d, reads of %r' % (about, size, sizes)
    key = loose_key if want is None else event_key
    got = blocking_keys(ShortReads(data, sizes), size, form, key, gen_lag(d))
    whole = read_keys(make_reader(form), [data], key)
    against(want, whole, about)
    compare(whole, got, about)
    # load() from the same file (it detects the format with the first read)
    if form == 'unicode':
        return
    status, loaded = attempt(simpleion.load, ShortReads(data, sizes, 4), single_value=False)
    if want is not None:
        if status == 'error':
            raise Violation('load from short reads raised %s: %s\n%s' % (type(loaded).__name__, loaded, about))
        expect(want, from_py_stream(loaded), 'load from short reads: %s' % about)
    elif (status == 'error') != (whole[1] is not None):
        raise Violation('load from short reads: %s, event reader: %s\n%s' % (loaded if status == 'error' else 'accepted',
                                                                         whole[1] or 'accepted', about))
