"""Child process of C11: a fresh interpreter with one logging configuration, a fixed workload, and what its handlers were given.

argv: one JSON object {root, when, setup, level, formatter, out, part, parts}
  root       'none' or 'debug': the application configures the root logger (handler of its own at level DEBUG)
  when       'before' / 'after' the library is imported
  setup      'none', 'null', 'memory' (handler that remembers), 'two' (two of them), 'stream' (StreamHandler() on stderr), 'arg' (StreamHandler, level by keyword)
  level      level handed to asn1perser_logging_setup, or null for its default
  formatter  true: the handler brings its own formatter"""
import json
import logging
import sys


class Memory(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self)
        self.seen = []

    def emit(self, record):
        self.seen.append([record.name, record.levelno, record.getMessage()[:80], self.format(record)[:400]])


def workload(L, D, M, part, parts):
    n = 0

    def quiet(f, *a):
        try:
            return f(*a)
        except Exception:
            return None
    for i, t in enumerate(D.MIX):
        if i % parts != part:
            continue
        spec = L.cls_of(t)()
        for v in D.mix_vals(t, 2):
            data = quiet(lambda: L.encode(L.make(t, v)))
            if data:
                quiet(L.decode, data, spec)
                quiet(L.decode, data[:-1], spec)
                quiet(L.decode, b'\xff' + data, spec)
                quiet(lambda: L.decode(data, L.cls_of(t)()).to_dict())
                n += 3
    # failures of every kind
    OCT, SO = L.OctetStringType, L.SequenceOfType
    quiet(lambda: L.encode(OCT(bytes(70000))))
    quiet(lambda: L.encode(L.SequenceType()))
    quiet(lambda: L.encode(L.ChoiceType()))
    quiet(lambda: L.encode(L.IntegerType()))
    for d in (b'\xc1' + bytes(16384), b'\xc5', b'\x80', b'\xff\xff', b''):
        for c in (OCT, L.BitStringType, L.IntegerType, L.BooleanType):
            quiet(L.decode, d, c())
            n += 1
    for c in (OCT, L.BitStringType):
        quiet(L.decode, bytes(10), type('Long', (c,), {'subtypeSpec': L.ValueSize(65536, 65536)})())
        quiet(L.encode, type('Long', (c,), {'subtypeSpec': L.ValueSize(65536, 65536)})(bytes(65536) if c is OCT else (0,) * 65536))
    # schemas: good, bad, and one that resolves only with much sorting
    head = 'M DEFINITIONS AUTOMATIC TAGS ::= BEGIN\n'
    chain = ['T%d ::= SEQUENCE { a T%d OPTIONAL, b INTEGER (0..v%d) }\nv%d INTEGER ::= %d' % (i, i + 1, i, i, i) for i in range(12)]
    for body in ('A ::= INTEGER (0..7)', 'A ::= SEQUENCE { a B OPTIONAL, ... }\nB ::= ENUMERATED { x, y, ... , z }', 'A ::= SEQUENCE {',
                 '\n'.join(chain) + '\nT12 ::= BOOLEAN', 'A ::= SEQUENCE { a A OPTIONAL }', 'A ::= Missing', '-- only a comment -- A ::= NULL',
                 'a INTEGER ::= b'):
        quiet(L.parse_asn1_schema, head + body + '\nEND')
        n += 1
    return n


def main():
    a = json.loads(sys.argv[1])
    mem = Memory()

    def root():
        if a['root'] == 'debug':
            logging.getLogger().addHandler(mem)
            logging.getLogger().setLevel(logging.DEBUG)
    if a['when'] == 'before':
        root()
    from . import lib as L, domains as D, model as M
    if a['when'] == 'after':
        root()
    own = Memory() if a['setup'] in ('memory', 'two') else logging.NullHandler() if a['setup'] == 'null' else logging.StreamHandler()
    if a['formatter']:
        own.setFormatter(logging.Formatter('OWN|%(levelname)s|%(message)s'))
    if a['setup'] != 'none':
        if a['level'] is None:
            L.asn1PERser.asn1perser_logging_setup(own)
        elif a['setup'] == 'arg':
            L.asn1PERser.asn1perser_logging_setup(level=a['level'], handler=own)
        else:
            L.asn1PERser.asn1perser_logging_setup(own, a['level'])
    second = Memory()
    if a['setup'] == 'two':
        L.asn1PERser.asn1perser_logging_setup(second, a['level'])
    n = workload(L, D, M, a['part'], a['parts'])
    logging.getLogger('application').warning('the application still logs')
    with open(a['out'], 'w') as f:
        json.dump({'root': mem.seen, 'own': getattr(own, 'seen', []), 'second': second.seen, 'calls': n}, f)


if __name__ == '__main__':
    main()
