"""Reference model of Ion 1.0 symbol tables, written from the specification."""
from .model import SYSTEM_SYMBOLS


class Bad(Exception):
    """The input is not valid Ion."""


class Unsure(Exception):
    """The specification (or what ion-python documents) does not settle what this input means."""


class SharedTable(object):
    """(name, version, texts); a text may be None."""

    def __init__(self, name, version, texts):
        self.name = name
        self.version = version
        self.texts = tuple(texts)

    def __repr__(self):
        return 'shared(%r, v%d, %r)' % (self.name, self.version, list(self.texts))


class Catalog(object):
    def __init__(self, tables=()):
        self.tables = {}
        for t in tables:
            self.tables.setdefault(t.name, {})[t.version] = t

    def resolve(self, name, version, max_id):
        """The slots an import contributes."""
        versions = self.tables.get(name) or {}
        table = versions.get(version)
        if table is None:
            if max_id is None:
                raise Bad('import of %r version %d without max_id and without exact match' % (name, version))
            if versions:
                table = versions[max(versions)]
        texts = () if table is None else table.texts
        if max_id is None:
            max_id = len(texts)
        slots = []
        for i in range(max_id):
            text = texts[i] if i < len(texts) else None
            slots.append(text if text is not None else ('import', name, i + 1))
        return slots


class Context(object):
    """The symbol table context of a stream; slots[sid] is what the symbol ID denotes."""

    def __init__(self, catalog=None):
        self.catalog = catalog or Catalog()
        self.slots = list(SYSTEM_SYMBOLS)

    def version_marker(self):
        self.slots = list(SYSTEM_SYMBOLS)

    def sid(self, n):
        if n == 0:
            return None
        if n >= len(self.slots):
            raise Bad('symbol ID %d out of range (%d)' % (n, len(self.slots) - 1))
        return self.slots[n]

    def find(self, text):
        """Every symbol ID that denotes the text."""
        return [i for i, s in enumerate(self.slots) if s == text and i > 0]

    def local_table(self, fields):
        """Interprets the fields of a local symbol table, given as [(field name, model value)]."""
        imports = [v for n, v in fields if n == 'imports']
        symbols = [v for n, v in fields if n == 'symbols']
        if len(imports) > 1 or len(symbols) > 1:
            raise Unsure('repeated field of a local symbol table')
        slots = list(SYSTEM_SYMBOLS)
        for v in imports:
            if v[0] == 'symbol' and v[1] == '$ion_symbol_table':
                slots = list(self.slots)
            elif v[0] == 'list':
                for x in v[1]:
                    if x[0] == 'struct':
                        slots += self._import(x[1])
        for v in symbols:
            if v[0] == 'list':
                for x in v[1]:
                    slots.append(x[1] if x[0] == 'string' else None)
        self.slots = slots

    def _import(self, fields):
        got = {}
        for n, v in fields:
            if n in ('name', 'version', 'max_id'):
                if n in got:
                    raise Unsure('repeated field of an import')
                got[n] = v
        name = got.get('name')
        if name is None or name[0] != 'string' or name[1] in ('', '$ion'):
            return []
        version = got.get('version')
        version = version[1] if version is not None and version[0] == 'int' else 1
        if version < 1:
            version = 1
        max_id = got.get('max_id')
        max_id = max_id[1] if max_id is not None and max_id[0] == 'int' else None
        if max_id is not None and max_id < 0:
            max_id = None
        if max_id is not None and max_id > 100000:
            raise Unsure('max_id of %d' % max_id)
        return self.catalog.resolve(name[1], version, max_id)
