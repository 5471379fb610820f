#!/usr/bin/env python3
"""Draft spec/spec.json from what the analysis learnt on the current tree (engine DUMP token - OUT).

A development tool, not part of any check: its output is reviewed by hand and committed, and the
checks only ever compare the code with the committed file.  The corrections found in review are the
tables below.
"""
import json, sys
from collections import defaultdict

runs = json.load(open(sys.argv[1]))
out = sys.argv[2]

# --- C08: spans
spans = {}
for d in runs:
    for k, v in d['learn_spans'].items():
        e = spans.setdefault(k, [defaultdict(set), defaultdict(set)])
        for i in (0, 1):
            ks = v[i].get('kinds', [])
            if not ks and not v[i].get('node') and not v[i].get('eoi'):
                e[i]['wide'].add(1)
            e[i]['kinds'] |= set(ks)
            for x in ('node', 'eoi', 'shifted'):
                if v[i].get(x):
                    e[i][x].add(1)
SP = {}
for k, e in sorted(spans.items()):
    if k.split('.')[0].endswith('::Invalid'):
        continue
    r = []
    for x in e:
        o = {}
        if not x['wide'] and x['kinds']:
            o['kinds'] = sorted(x['kinds'])
        for f in ('node', 'eoi', 'shifted'):
            if x[f]:
                o[f] = True
        r.append(o)
    SP[k] = r

# --- C09: variants
NOISE = {'IF', 'EXISTS', '<LParen>', '<RParen>', '<Comma>', '<Integer>', '<Period>', '<AtAtGlobal>', '<AtAtSession>', '<Eq>'}
SKIP = {'expression::Expression', 'statement::Statement', 'select::TableReference', 'create::CreateDefinition',
        'expression::Variable', 'expression::IdentifierPart', 'insert_replace::OnConflictTarget',
        'create::CreateIndexOption', 'alter::AlterSpecification', 'expression::Is', 'data_type::DataTypeProperty'}
OVER = {
    'expression::BinaryOperator': {
        'Add': '<Plus>', 'And': 'AND|<DoubleAmpersand>', 'BitAnd': '<Ampersand>', 'BitOr': '<Pipe>', 'Divide': '<Div>', 'Eq': '<Eq>',
        'Gt': '<Gt>', 'GtEq': '<GtEq>', 'Like': 'LIKE', 'Lt': '<Lt>', 'LtEq': '<LtEq>', 'Mult': '<Mul>', 'Neq': '<Neq>',
        'NotLike': 'NOT LIKE', 'NullSafeEq': '<Spaceship>', 'Or': 'OR|<DoublePipe>', 'ShiftLeft': '<ShiftLeft>',
        'ShiftRight': '<ShiftRight>', 'Subtract': '<Minus>', 'Xor': 'XOR'},
    'expression::UnaryOperator': {'Binary': 'BINARY', 'Collate': 'COLLATE', 'LogicalNot': '<ExclamationMark>', 'Minus': '<Minus>', 'Not': 'NOT'},
    'expression::Function': {
        'AddDate': 'ADDDATE|DATE_ADD', 'Ceil': 'CEIL|CEILING', 'CharacterLength': 'CHARACTER_LENGTH|CHAR_LENGTH',
        'CurDate': 'CURDATE|CURRENT_DATE', 'CurTime': 'CURTIME|CURRENT_TIME', 'DateSub': 'DATE_SUB|SUBDATE',
        'DayOfMonth': 'DAY|DAYOFMONTH', 'IfNull': 'IFNULL|NVL', 'Now': 'NOW|LOCALTIME|LOCALTIMESTAMP', 'Pow': 'POW|POWER',
        'SubStr': 'SUBSTR|SUBSTRING', 'Value': 'VALUE|VALUES', 'If': 'IF', 'Exists': 'EXISTS', 'Other': None},
    'expression::Expression': {
        'Case': 'CASE', 'Cast': 'CAST', 'Count': 'COUNT', 'Exists': 'EXISTS', 'Extract': 'EXTRACT', 'GroupConcat': 'GROUP_CONCAT',
        'In': 'IN', 'Interval': 'INTERVAL', 'Is': 'IS', 'ListHack': '_LIST_', 'Null': 'NULL', 'Integer': '<Integer>', 'Float': '<Float>',
        'Bool': 'TRUE|FALSE', 'TimestampAdd': 'TIMESTAMPADD', 'TimestampDiff': 'TIMESTAMPDIFF', 'WindowFunction': 'OVER',
        'Arg': '<QuestionMark>|<PercentS>|<DollarArg>'},
    'statement::Statement': {'Begin': 'BEGIN', 'Commit': 'COMMIT', 'End': 'END', 'StartTransaction': 'START TRANSACTION'},
    'create::FunctionParamDirection': {'In': 'IN', 'Out': 'OUT', 'InOut': 'IN|INOUT OUT|INOUT'},
    'create::TableOption': {'DefaultCharSet': 'DEFAULT CHARSET', 'DefaultCollate': 'DEFAULT COLLATE'},
    'alter::IndexType': {'Index': 'INDEX|KEY', 'Primary': 'PRIMARY KEY', 'Unique': 'UNIQUE', 'FullText': 'FULLTEXT', 'Spatial': 'SPATIAL'},
    'alter::IndexOption': {'Comment': 'COMMENT'},
    'alter::AlterSpecification': {
        'AddColumn': 'ADD', 'AddForeignKey': 'ADD FOREIGN KEY', 'AddIndex': 'ADD', 'AlterColumn': 'ALTER COLUMN', 'DropColumn': 'DROP COLUMN',
        'Modify': 'MODIFY', 'OwnerTo': 'OWNER TO'},
    'data_type::Type': {'Double': 'DOUBLE|REAL', 'Float': 'FLOAT|REAL', 'Named': None},
    'data_type::DataTypeProperty': {
        'As': 'AS', 'AutoIncrement': 'AUTO_INCREMENT', 'Charset': 'CHARACTER SET', 'Check': 'CHECK', 'Collate': 'COLLATE', 'Comment': 'COMMENT',
        'Default': 'DEFAULT', 'GeneratedAlways': 'GENERATED', 'NotNull': 'NOT NULL', 'Null': 'NULL', 'Persistent': 'PERSISTENT',
        'PrimaryKey': 'PRIMARY KEY', 'Signed': 'SIGNED', 'Stored': 'STORED', 'Unique': 'UNIQUE', 'UniqueKey': 'UNIQUE KEY',
        'Unsigned': 'UNSIGNED', 'Virtual': 'VIRTUAL', 'Zerofill': 'ZEROFILL'},
    'create::FunctionCharacteristic': {'Comment': 'COMMENT'},
    'select::OrderFlag': {'None': ''},
    'select::LockWait': {'Default': ''},
    'statement::UnionType': {'Default': ''},
    'insert_replace::OnConflictAction': {'DoNothing': 'DO NOTHING', 'DoUpdateSet': 'DO UPDATE SET'},
    'expression::Variable': {'TimeZone': 'TIME_ZONE'},
    'expression::IdentifierPart': {'Star': '<Mul>'},
    'insert_replace::OnConflictTarget': {'OnConstraint': 'ON CONSTRAINT'},
}
SEQ = {
    'expression::Is': {n: 'IS ' + ('NOT ' if n.startswith('Not') else '') + n.replace('Not', '').upper()
                       for n in ('Null', 'NotNull', 'True', 'NotTrue', 'False', 'NotFalse', 'Unknown', 'NotUnknown')},
}
L = defaultdict(list)
for d in runs:
    for k, v in d['learn_variants'].items():
        for e in v:
            i = e.index('/')
            j = e.index('/', i + 1)
            L[k].append(set(e[:i]) | {x for x in e[i + 1:j] if '|' not in x and '?' not in x and x not in '#*'})
enums = defaultdict(list)
for k in L:
    enums[k.rsplit('::', 1)[0]].append(k)
V = {}
for e, ks in sorted(enums.items()):
    own = {k: set.intersection(*L[k]) for k in ks}
    common = set.intersection(*own.values()) if len(ks) > 1 else set()
    for k in ks:
        n = k.rsplit('::', 1)[1]
        o = OVER.get(e, {})
        if n in o:
            if o[n] is not None:
                V[k] = [sorted(g.split('|')) for g in o[n].split()]
        elif e not in SKIP:
            g = sorted(own[k] - common - NOISE)
            if g:
                V[k] = [[x] for x in g]
S = {e + '::' + n: [[x] for x in s.split()] for e, m in SEQ.items() for n, s in m.items()}

# --- C05: constructs per dialect
names = [d['dialect'] for d in runs]
T = defaultdict(list)
for i, d in enumerate(runs):
    for t in d['tags']:
        T[t].append(i)
json.dump({'dialects': names, 'spans': SP, 'variants': V, 'seqs': S, 'tags': dict(sorted(T.items()))}, open(out, 'w'), indent=1, sort_keys=True)
print(len(SP), 'spans', len(V), 'variants', len(T), 'tags')
