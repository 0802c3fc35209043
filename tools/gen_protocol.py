#!/usr/bin/env python3
"""Writes worlds/protocol_table.inc: for every protocol structure, its C++
members and their names on the wire, as published in the Debug Adapter
Protocol.  The committed output is the specification the worlds check against;
it is not regenerated by the checks."""
import re, sys
H = open('/repo/include/dap/protocol.h').read()
impl = {}
for f in ('types', 'requests', 'response', 'events'):
    s = open('/repo/src/protocol_%s.cpp' % f).read()
    for m in re.finditer(r'DAP_IMPLEMENT_STRUCT_TYPEINFO(_EXT)?\((.*?)\);', s, re.S):
        body = m.group(2)
        fields = re.findall(r'DAP_FIELD\(\s*(\w+)\s*,\s*"([^"]*)"\s*\)', body)
        parts = [x.strip() for x in body.split(',')[:3]]
        name = parts[0]
        base = parts[1] if m.group(1) else ''
        wire = (parts[2] if m.group(1) else parts[1]).strip('"')
        impl[name] = (wire, base, dict(fields))
out, kinds = [], {'REQUEST': [], 'EVENT': [], 'TYPE': [], 'RESPONSE': []}
seen = set()
for m in re.finditer(r'^struct (\w+)(?: : public (\w+))? \{(.*?)\};', H, re.S | re.M):
    name, base, body = m.groups()
    if name in ('Request', 'Response', 'Event'):
        continue
    body = re.sub(r'//[^\n]*', '', body)
    body = re.sub(r'using Response = (\w+);', '', body)
    resp = re.search(r'using Response = (\w+);', m.group(3))
    members = []
    for d in body.split(';'):
        d = ' '.join(d.split())
        if not d:
            continue
        d = re.sub(r'\s*=\s*.*$', '', d)
        members.append(d.split(' ')[-1])
    wire, ibase, fields = impl[name]
    assert set(members) == set(fields), (name, set(members) ^ set(fields))
    for a in members:
        if fields[a] != a:
            print('renamed', name, a, fields[a])
    kind = {'Request': 'REQUEST', 'Response': 'RESPONSE', 'Event': 'EVENT', None: 'TYPE'}.get(base)
    if kind is None:
        print('derived', name, base)
        kind = 'TYPE'
    line = 'P_STRUCT(%s)\n' % name
    if base and base not in ('Request', 'Response', 'Event'):
        line += '  P_BASE(%s)\n' % base
    line += ''.join('  P_FIELD(%s, "%s")\n' % (a, fields[a]) for a in members)
    line += 'P_END\n'
    out.append(line)
    if kind == 'REQUEST':
        kinds[kind].append('P_REQUEST(%s, %s, "%s")' % (name, resp.group(1), wire))
    elif kind == 'EVENT':
        kinds[kind].append('P_EVENT(%s, "%s")' % (name, wire))
    seen.add(name)
print(set(impl) - seen)
with open('/verif/worlds/protocol_table.inc', 'w') as f:
    f.write('// Structures of the Debug Adapter Protocol 1.65: members and names on the wire.\n')
    f.write('#ifdef P_STRUCT\n' + '\n'.join(out) + '#endif\n')
    f.write('#ifdef P_REQUEST\n' + '\n'.join(kinds['REQUEST']) + '\n#endif\n')
    f.write('#ifdef P_EVENT\n' + '\n'.join(kinds['EVENT']) + '\n#endif\n')
