#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_head.md, then a section per property (statement's oracle and limits below, bounds and
entries from lib/props.py), the defects of known_findings.json and the planted bugs of seeded/."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, 'lib'), os.path.join(V, 'tools')]
from properties import ALL
from props import PROPS, HARNESSES
import re
def harness_of(e):
    for h in HARNESSES:
        if re.search(r'HARNESS\s+%s\s*\(' % e, open(os.path.join(V, 'harness', h)).read()): return h
# oracle, cost (quick, seconds on 8 cores), limits
N = {
'C01': ('the bytes given; counts the encoder and decoder report are compared with what arrived', ''),
'C02': ('line and alphabet checkers written from RFC 2045 / RFC 2047 / the uuencode format', ''),
'C03': ('memory safety of the interpreter; decode of one chunking against decode of the whole; foreign encodings are produced by a generator that chooses breaks, case and soft breaks', ''),
'C04': ('the announced size against the bytes written', ''),
'C05': ('a one-pass definition of each filter over the whole byte string', 'sendmailTransport never flushes its CRLF-to-LF filter; it is not encoded (it starts a process)'),
'C06': ('an array and a position', ''),
'C07': ('MD5 (RFC 1321) and SHA-1 (RFC 3174) written independently in the harness; divided against whole', 'the reference run leaves one byte symbolic at a time: inverting a digest of more is out of reach for the solver'),
'C08': ('the characters written; words of another program come from a generator', 'charsets UTF-8, US-ASCII, ISO-8859-1 (stub); parameter: RFC 2231 language dropped (pinned by tests)'),
'C09': ('a checker of RFC 2047 lines and words that decodes each word alone', 'known finding K01'),
'C10': ('the number and names of the fields set; every CRLF of the block must be followed by white space', 'generation of In-Reply-To and similar fields takes its text as one identifier'),
'C11': ('the value set; a checker of RFC 2045/2231 syntax; a generator of RFC 2231 sections', 'outside: parameter languages (dropped), a raw "*" in extended values (pinned by tests)'),
'C12': ('names, local parts, domains and grouping that were set', 'outside: non-ASCII local parts long enough for several encoded words'),
'C13': ('memory safety; the same text in different surroundings; generate and parse again', ''),
'C14': ('a list of (name, value); folds and separators come from the generator', ''),
'C15': ('the tree of parts, bodies, prolog and epilog set', 'nesting deeper than two levels of multipart is outside the bounds (the parser recurses; stack exhaustion is not modelled)'),
'C16': ('an independent reading of the body by delimiter lines (RFC 2046); string against stream', 'nesting deeper than two levels is outside the bounds'),
'C17': ('day numbers (days from civil) in the harness', 'outside: datetime(time_t, zone), which labels GMT fields with the zone given'),
'C18': ('the components set; generated URLs with every escape', 'ports 0 and above 65534 read as unspecified (accepted)'),
'C19': ('lists of components', ''),
'C20': ('a UTF-16 / modified Base64 codec in the harness', 'known finding K02'),
'C21': ('identifier and flags given; the set of directories of all other folders', 'Courier names of wide characters only in the thorough tier; destroying a KMail leaf swallows errors'),
'C22': ('the contents of the file system model after a crash or fault: old messages, and complete new ones only; for histories, a list of (text, flags)', 'a message added with only FLAG_RECENT stays in new/ until the next scan (maildir semantics)'),
'C23': ('the set of numbers', 'messageSet::byNumber(size_t(-1)) is accepted as *'),
'C24': ('values chosen by the generator of the grammar; one fragmentation against another', 'nesting of body structures is bounded; numbers wrap at 2^32; "* OK =?..?= text" and 8-bit quoted strings are refused (accepted as documented exceptions)'),
'C25': ('a server-side reader of astrings and literals', '8-bit characters are allowed in quoted strings; UIDs given as text must have no line end'),
'C26': ('an independent reader of reply lines', 'time-outs not modelled'),
'C27': ('a server that removes dot-stuffing or joins chunks', 'DATA appends CRLF to every message (kept: clients rely on it)'),
'C36': ('the SMTP server model records what it accepted', 'DSN attributes are not checked; time-outs not modelled'),
'C28': ('lines and messages sent by the server model', 'the line end before the terminator is dropped (pinned by testLargeResponse), lines are trimmed, bare LF inside CRLF bodies is outside'),
'C37': ('the POP3 server model: what it deleted and served', ''),
'C40': ('the IMAP server model: mailboxes, messages, flags, and what it told', 'outside: FETCH with UIDs of other messages in an answer to getMessages; CLOSE is sent without reading its reply; wildcards in names given to exists()'),
'C29': ('a map in the harness', ''),
'C30': ('a monitor on every byte sent before the TLS session stands: no AUTH, USER, PASS, LOGIN, APOP, no credential', 'connection.tls.required only matters with connection.tls; SMTP/POP3/IMAP only'),
'C31': ('a definition of the accepted chains over the same attributes', 'GnuTLS is a model: a v1 self-issued trusted CA is allowed; root dates are checked; only the GnuTLS variant is built here'),
'C32': ('texts, objects, recipients and attachments set', 'a non-root part without Content-Type and disposition is both text and attachment; forced binary encodings may be 8-bit'),
'C33': ('disposition and receipt fields set', ''),
'C34': ('code points: each charset decoded and encoded by the harness', 'ICU is a model of five charsets (every path is replayed with the real ICU); in strict mode a filtered stream may hold back text written in the same call as illegal bytes; default-ignorable characters are dropped; the iconv variant is not built here'),
'C35': ('the value set; generated foreign forms', 'a relay without ";" is read leniently'),
'C41': ('a model of two ordered containers', 'cycles (a part put inside itself) and bodies without a part are outside'),
'C42': ('std::vector of the same operations', 'positions out of range of word and identifier lists and of removeParameter are undefined by the API, outside'),
'C43': ('the bytes of the file in the model of the file system, cut by the harness', 'extracting a part gives its body only; the sizes of multiparts are not judged'),
'C44': ('the file, the fields set, and what a parser finds', 'dates are set by the caller (nothing reads them from the file system)'),
'C38': ('the mechanism model and the server model agree byte for byte', 'GNU SASL is a model; XOAUTH2 repeats its credentials on a challenge'),
'C39': ('the bytes on both sides of the record layer model, and a monitor of verifier calls', 'GnuTLS is a model; the OpenSSL variant is not built here; a failed connect leaves the wrapped socket open'),
}
out = [open(os.path.join(V, 'tools', 'design_head.md')).read()]
kf = json.load(open(os.path.join(V, 'known_findings.json')))['findings']
seeds = {}
sd = os.path.join(V, 'seeded')
for s in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(os.path.join(sd, s, 'meta.json'))); seeds.setdefault(m['property'], []).append((s, m))
out.append('\n## Properties\n')
for p in ALL:
    P = PROPS.get(p['id'])
    out.append('### %s — %s\n' % (p['id'], p['title']))
    if not P: out.append('Not claimed.\n'); continue
    o, lim = N.get(p['id'], ('', ''))
    ents = []
    for j in P['jobs']:
        if j['entry'] not in ents: ents.append(j['entry'])
    runs = sum(len(list(j.get('variants', [{}]))) for j in P['jobs'])
    out.append('- Checked by: `harness/%s` (%s), %d runs in the quick tier.' % (harness_of(ents[0]), ', '.join('`%s`' % e for e in ents), runs))
    out.append('- Oracle: %s.' % o)
    out.append('- Bounds: %s.' % P['bounds'])
    a = [x for x in P.get('assumptions', [])]
    if a: out.append('- Stands on: %s.' % '; '.join(a))
    if lim: out.append('- Outside / notes: %s.' % lim)
    out.append('- Why tests cannot: %s.' % p['why'])
    f = [k for k in kf if k['property'] == p['id']]
    if f: out.append('- Found here: %s.' % ', '.join('%s (%s)' % (k['id'], 'fixed ' + k['commit'] if k['status'] == 'fixed' else 'known finding') for k in f))
    if p['id'] in seeds: out.append('- Planted bugs caught: %s.' % ', '.join('`%s`' % s for s, _ in seeds[p['id']]))
    out.append('')
out.append('## Defects found on the original tree\n\nEach was reproduced against the real code. "known" entries are printed as KNOWN-FINDING lines, the others are repaired by the commit named.\n')
for k in kf: out.append('- **%s** (%s): %s' % (k['id'], k['property'], k['what']))
out.append('\n## Planted bugs\n\nEach is in seeded/ with a demonstration; the check of its property exits 1 with a VIOLATION line on it, unless said otherwise.\n')
for p in ALL:
    for s, m in seeds.get(p['id'], []): out.append('- `%s` (%s): needs %s; breaks: %s.%s' % (s, p['id'], m['needs'], m['what_it_breaks'], (' ' + m['note']) if m.get('note') else ''))
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
