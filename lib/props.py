HARNESSES = {
    'selftest.cpp': {'stubs': ['platform.cpp', 'charset.sym.cpp', 'nonet.cpp'], 'exclude': r'vmime/net/'},
    'streams.cpp': {'stubs': ['platform.cpp', 'charset.sym.cpp', 'nonet.cpp'], 'exclude': r'vmime/net/'},
    'text.cpp': {'stubs': ['platform.cpp', 'charset.sym.cpp', 'nonet.cpp'], 'exclude': r'vmime/net/'},
    'header.cpp': {'stubs': ['platform.cpp', 'charset.sym.cpp', 'nonet.cpp'], 'exclude': r'vmime/net/'},
    'addr.cpp': {'stubs': ['platform.cpp', 'charset.sym.cpp', 'nonet.cpp'], 'exclude': r'vmime/net/'},
    'param.cpp': {'stubs': ['platform.cpp', 'charset.sym.cpp', 'nonet.cpp'], 'exclude': r'vmime/net/'},
    'message.cpp': {'stubs': ['platform.cpp', 'charset.sym.cpp', 'nonet.cpp'], 'exclude': r'vmime/net/'},
    'date.cpp': {'stubs': ['platform.cpp', 'charset.sym.cpp', 'nonet.cpp'], 'exclude': r'vmime/net/'},
    'url.cpp': {'stubs': ['platform.cpp', 'charset.sym.cpp', 'nonet.cpp'], 'exclude': r'vmime/net/'},
    'path.cpp': {'stubs': ['platform.cpp', 'charset.sym.cpp', 'nonet.cpp'], 'exclude': r'vmime/net/'},
    'imapname.cpp': {'stubs': ['platform.cpp', 'charset.sym.cpp', 'nonet.cpp'], 'exclude': r'vmime/(security|net/(smtp|pop3|maildir|sendmail|tls|builtin))|serviceFactory'},
    'msgset.cpp': {'stubs': ['platform.cpp', 'charset.sym.cpp', 'nonet.cpp'], 'exclude': r'vmime/(security|net/(smtp|sendmail|tls|builtin))|serviceFactory'},
    'maildir.cpp': {'stubs': ['platform.cpp', 'charset.sym.cpp', 'nonet.cpp', 'notls.cpp'], 'exclude': r'vmime/(security/(sasl|digest|cert/(gnutls|openssl))|net/(smtp|sendmail|tls|builtin|imap|pop3))|serviceFactory'},
    'smtp.cpp': {'stubs': ['platform.cpp', 'charset.sym.cpp', 'nonet.cpp', 'notls.cpp'], 'exclude': r'vmime/(security/(sasl|digest|cert/(gnutls|openssl))|net/(sendmail|tls/(gnutls|openssl)|tls/TLSProperties|builtin|imap|pop3|maildir))|serviceFactory'},
    'imapcmd.cpp': {'stubs': ['platform.cpp', 'charset.sym.cpp', 'nonet.cpp', 'notls.cpp'], 'exclude': r'vmime/(security/(sasl|digest|cert/(gnutls|openssl))|net/(sendmail|tls/(gnutls|openssl)|tls/TLSProperties|builtin|smtp|pop3|maildir))|serviceFactory'},
    'imapparse.cpp': {'stubs': ['platform.cpp', 'charset.sym.cpp', 'nonet.cpp', 'notls.cpp'], 'exclude': r'vmime/(security/(sasl|digest|cert/(gnutls|openssl))|net/(sendmail|tls/(gnutls|openssl)|tls/TLSProperties|builtin|smtp|pop3|maildir))|serviceFactory'},
    'imapfolder.cpp': {'stubs': ['platform.cpp', 'charset.sym.cpp', 'nonet.cpp', 'notls.cpp'], 'exclude': r'vmime/(security/(sasl|digest|cert/(gnutls|openssl))|net/(sendmail|tls/(gnutls|openssl)|tls/TLSProperties|builtin|smtp|pop3|maildir))|serviceFactory'},
    'pop3.cpp': {'stubs': ['platform.cpp', 'charset.sym.cpp', 'nonet.cpp', 'notls.cpp'], 'exclude': r'vmime/(security/(sasl|cert/(gnutls|openssl))|net/(sendmail|tls/(gnutls|openssl)|tls/TLSProperties|builtin|imap|smtp|maildir))|serviceFactory'},
    'tls.cpp': {'stubs': ['platform.cpp', 'charset.sym.cpp', 'nonet.cpp', 'notls.cpp', 'gsasl.cpp'], 'exclude': r'vmime/(security/(cert/(gnutls|openssl))|net/(sendmail|tls/(gnutls|openssl)|tls/TLSProperties|builtin|maildir))|serviceFactory'},
    'sasl.cpp': {'stubs': ['platform.cpp', 'charset.sym.cpp', 'nonet.cpp', 'notls.cpp', 'gsasl.cpp'], 'exclude': r'vmime/(security/(cert/(gnutls|openssl))|net/(sendmail|tls/(gnutls|openssl)|tls/TLSProperties|builtin|maildir))|serviceFactory'},
    'cert.cpp': {'stubs': ['platform.cpp', 'charset.sym.cpp', 'nonet.cpp', 'gnutls.cpp'], 'exclude': r'vmime/(security/(sasl|digest)|net/(sendmail|imap|smtp|pop3|builtin|maildir))|serviceFactory'},
    'lists.cpp': {'stubs': ['platform.cpp', 'charset.sym.cpp', 'nonet.cpp'], 'exclude': r'vmime/net/'},
    'fields.cpp': {'stubs': ['platform.cpp', 'charset.sym.cpp', 'nonet.cpp'], 'exclude': r'vmime/net/'},
    'builder.cpp': {'stubs': ['platform.cpp', 'charset.sym.cpp', 'nonet.cpp'], 'exclude': r'vmime/net/'},
    'fileatt.cpp': {'stubs': ['platform.cpp', 'charset.sym.cpp', 'nonet.cpp'], 'exclude': r'vmime/net/'},
    'conv.cpp': {'stubs': ['platform.cpp', 'icu.sym.cpp', 'nonet.cpp'], 'exclude': r'vmime/net/'},
    'codec.cpp': {'stubs': ['platform.cpp', 'charset.sym.cpp', 'nonet.cpp'], 'exclude': r'vmime/net/'},
}
def J(entry, **kw): return dict(entry=entry, **kw)
def V(*ds): return list(ds)
def grid(**kw):
    r = [{}]
    for k, vs in kw.items(): r = [dict(x, **{k: v}) for x in r for v in vs]
    return r
B64, QP, QPT, QPH, UU, S7, S8, BIN = range(8)
A_PLAT = 'the deterministic platform stub (clock, random numbers, host name)'
A_CS = 'the charset-conversion stub (UTF-8, US-ASCII and ISO-8859-1 only) standing for ICU'
PROPS = {}

PROPS['C01'] = dict(jobs=[
    J('h_codec_rt', p={'n': 4}, variants=grid(enc=[B64, QP, QPT, QPH, UU, S7, S8, BIN], mll=[0, 76]) + grid(enc=[B64, QP, QPT, UU], mll=[8, 20]), P={'n': 5}, bounds='0..4 arbitrary bytes'),
    J('h_codec_rt', p={'n': 4, 'cut': 1}, variants=grid(enc=[B64, UU, S7, S8, BIN], mll=[0, 8]) + grid(enc=[QP, QPT], mll=[8], n=[3]), P={'n': 6}, bounds='every partition of 0..4 bytes into reads'),
    J('h_codec_rt', p={'n': 3, 'mll': 76}, variants=grid(enc=[QP, QPT], pre=[68, 70, 71, 72, 73, 74, 75]) + grid(enc=[B64], pre=[52, 53, 54, 55, 56]) + grid(enc=[UU], pre=[42, 43, 44, 45], cut=[0, 1]), VARIANTS=grid(enc=[QP, QPT, B64, UU], pre=range(40, 80)), bounds='0..3 arbitrary bytes around the end of a line'),
    J('h_codec_rt', p={'n': 3, 'mll': 76, 'fill': 1}, variants=V({'enc': B64, 'pre': 65534}, {'enc': B64, 'pre': 16383}, {'enc': B64, 'pre': 12285}, {'enc': QP, 'pre': 16382, 'n': 2}, {'enc': QP, 'pre': 5440, 'n': 2}, {'enc': UU, 'pre': 16383}, {'enc': BIN, 'pre': 65535}), bounds='0..3 arbitrary bytes at the end of internal buffers'),
    J('h_codec_decide', p={'n': 4}, VARIANTS=V({}, {'n': 3, 'pre': 76}, {'n': 3, 'pre': 75}, {'n': 3, 'pre': 997}), variants=V({}, {'n': 2, 'pre': 77}, {'n': 2, 'pre': 997}), bounds='0..4 arbitrary bytes'),
], bounds='contents of 0..4 arbitrary bytes after fillers of fixed bytes (0, around line ends, around internal buffer ends); line lengths none, 8, 20, 76; all partitions into reads of those bytes', assumptions=[A_PLAT])

PROPS['C02'] = dict(jobs=[
    J('h_codec_wf', p={'n': 4}, variants=grid(enc=[B64, QP, QPT, UU], mll=[0, 76, 8, 20]) + grid(enc=[QPH], mll=[0, 76]), P={'n': 5}),
    J('h_codec_wf', p={'n': 3, 'mll': 76}, variants=grid(enc=[QP, QPT], pre=[68, 69, 70, 71, 72, 73, 74, 75]) + grid(enc=[B64], pre=[52, 55, 56, 57]) + grid(enc=[UU], pre=[43, 44, 45]), P={'n': 4}),
    J('h_codec_wf', p={'n': 3, 'mll': 20, 'pre': 0}, variants=grid(enc=[QP, QPT], pre=[12, 13, 14, 15, 16, 17, 18, 19]) + grid(enc=[B64], pre=[12, 14, 15])),
], bounds='contents of 0..4 arbitrary bytes alone and 0..3 after fillers reaching the end of a line; line lengths none, 8, 20, 76', assumptions=[A_PLAT])

PROPS['C03'] = dict(jobs=[
    J('h_codec_dec', p={'n': 4}, variants=grid(enc=[B64, QP, UU, S7, BIN], pfx=[0]) + grid(enc=[QP], pfx=[1]) + grid(enc=[B64], pfx=[4]) + grid(enc=[UU], pfx=[2, 3, 5, 6, 7]), P={'n': 5}, bounds='0..4 arbitrary bytes after each prefix, every partition into reads'),
    J('h_codec_foreign', p={'n': 3}, variants=grid(enc=[B64], n=[1, 2, 3, 4]) + grid(enc=[QP], n=[1, 2, 3]), P={'n': 4}, bounds='every RFC 2045 representation of 1..4 bytes'),
], bounds='0..4 arbitrary encoded bytes after each of 8 prefixes, every partition into reads; every Base64/QP representation of up to 4/3 bytes', assumptions=[A_PLAT])

PROPS['C04'] = dict(jobs=[
    J('h_codec_size', p={'len': 130}, variants=grid(enc=[B64, QP, UU], mll=[0, 4, 8, 20, 76]) + grid(enc=[QPT, QPH, S7, S8, BIN], mll=[0, 76]), P={'len': 400}),
    J('h_codec_size', p={'len': 10, 'mll': 76}, variants=grid(enc=[B64, QP, UU], lo=[1000, 16380]), P={'len': 60}),
    J('h_msg_size', p={'n': 1, 'sn': 1}, variants=grid(kind=[0, 1, 2, 3, 4], enc=[0, 3, 4], blen=[0, 60, 130], bnd=[0, 2]) + grid(kind=[1], enc=[3, 4, 5], blen=[0, 30, 60, 200], bfill=[0, 1], src=[0, 3, 4, 5], mll=[0, 20]) + grid(kind=[1, 3], enc=[3], blen=[60], ptext=[0, 1], text=[0, 1, 2], mll=[20, 76, 998]) + grid(kind=[1], enc=[0], subj=[1], slen=[0, 50, 63], mll=[0, 20]), P={'sn': 2, 'n': 2}),
    J('h_param_size', p={'n': 1}, variants=grid(mode=[0, 2, 4], pre=[0, 60, 120], fill=[0, 2, 7], mll=[0, 20], name=[0, 3]), P={'n': 2}),
], bounds='transfer encoders: all lengths 0..129 (and 1000..1009, 16380..16389), contents alternating two arbitrary bytes, line lengths none, 4, 8, 20, 76; messages of 1..5 parts with bodies of 0..200 fixed characters and 0..1 arbitrary ones, held and generated in every encoding; fields with parameters of 0..120 characters and an arbitrary one in every mode', assumptions=[A_PLAT, A_CS])

PROPS['C05'] = dict(jobs=[
    J('h_dotout', p={'n': 5}, variants=grid(pfx=[0, 1, 2, 3, 4, 6]), P={'n': 6}),
    J('h_dotin', p={'n': 5}, variants=grid(pfx=[0, 1, 2, 5]) + grid(pfx=[3], n=[4]), P={'n': 6}),
    J('h_crlf2lf', p={'n': 5}, variants=grid(pfx=[0, 1, 5]), P={'n': 7}),
    J('h_lf2crlf', p={'n': 5}, variants=grid(pfx=[0, 1, 5]), P={'n': 7}),
    J('h_stop', p={'n': 5}, variants=grid(N=[1, 2], pfx=[0]) + grid(N=[3, 5], pfx=[0, 1, 3, 4, 7]), P={'n': 6}),
    J('h_stop', p={'n': 7, 'set': 1}, variants=grid(N=[2, 3, 5], pfx=[0])),
], bounds='contents of 5 arbitrary bytes after each of several prefixes of line breaks and dots (7 bytes over {CR, LF, ".", other} for the stop filter), every partition into writes or reads')

PROPS['C06'] = dict(jobs=[
    J('h_adapter', p={'n': 3, 'steps': 4}, variants=grid(kind=[0, 1, 2, 3, 5, 6, 7]) + grid(kind=[4], steps=[4]) + grid(kind=[8, 9], n=[2, 3], steps=[3]), P={'n': 4, 'steps': 5}),
    J('h_copy', p={'n': 5}, P={'n': 8}),
    J('h_find', p={'n': 5}, variants=grid(tok=[0, 1, 2, 3, 4, 5]) + grid(tok=[1, 2], pre=[2045, 4094], n=[3]) + grid(tok=[2, 4], pre=[4094], post=[3000], cut=[0], n=[4])),
    J('h_content', p={'n': 2}, variants=grid(e1=[0, 1, 2, 6], e2=[1, 2, 3, 6], stream=[0], n=[2]) + grid(e1=[0], e2=[1, 2, 3, 6], stream=[1]) + grid(e1=[1, 2, 6], e2=[1, 3], stream=[1]) + grid(e1=[0], e2=[1, 2, 3, 6], stream=[1], cut=[1])),
], bounds='contents of 3 arbitrary bytes inside a larger buffer, every sequence of 4 operations (read, skip, reset, seek) with every size; copies of 0..5 bytes; searches in 5 bytes over {"-", "a", "b"} and across internal buffer ends; content handlers with 0..2 arbitrary bytes and every pair of encodings', assumptions=[A_PLAT])

PROPS['C07'] = dict(jobs=[
    J('h_digest_chunk', variants=grid(alg=[0, 1], lo=[0], len=[5]) + grid(alg=[0, 1], lo=[54, 61, 118], len=[5], step=[3]) + grid(alg=[0, 1], lo=[0, 63], len=[2], again=[1], step=[16]), bounds='every content of the given lengths'),
    J('h_digest_ref', variants=grid(alg=[0, 1], lo=[0, 54, 62, 118, 126], len=[4]), VARIANTS=grid(alg=[0, 1], lo=range(0, 200, 5), len=[5]), bounds='one arbitrary byte in contents of the given lengths'),
], bounds='division independence: every content of 0..4, 54..58, 61..65, 118..122 bytes, every division into three updates (at multiples of 1 or 3 bytes); reference: contents of 0..3, 54..57, 62..65, 118..121, 126..129 bytes with one arbitrary byte at two places')

PROPS['C08'] = dict(jobs=[
    J('h_text_rt', p={'n': 1, 'n2': 1, 'mask': 5}, variants=grid(how=[0, 1], mll=[20, 76], fill=[1, 2, 3], pre=[3, 10, 17, 30, 60], cur=[0, 7]), VARIANTS=grid(how=[0, 1, 2], mll=[20, 40, 76], fill=[0, 1, 2, 3], pre=range(0, 80, 7), cur=[0, 7], mask=[5, 23])),
    J('h_text_rt', p={'n': 2}, variants=V({'mask': 31}, {'mask': 128 + 1}, {'mask': 32, 'exact': 1}, {'mask': 66, 'ch': 1, 'how': 1, 'n': 3}, {'mask': 1, 'ch': 1, 'pre': 30, 'fill': 1, 'mll': 40}) + grid(how=[2], mask=[7], n2=[1]), P={'n': 3}),
    J('h_text_foreign', p={'n': 1}, variants=V({'k': 2}, {'k': 2, 'lead': 1}, {'k': 3, 'mask': 4}), P={'n': 2}),
    J('h_text_split', variants=V({'n': 3, 'k': 2}, {'n': 6, 'k': 3}, {'n': 7, 'k': 3})),
    J('h_text_parse', p={'n': 4}, variants=grid(pfx=range(14), close=[0, 1]), P={'n': 5}),
], bounds='texts of 2..3 characters (any printable ASCII, blank, 2- to 4-byte UTF-8, ISO-8859-1) after and between fillers of 0..60 fixed characters, line lengths 20, 76 and unlimited, start columns 0 and 7; 2 or 3 RFC 2047 words of 1 character by another encoder; every input of 4 arbitrary bytes after 14 prefixes', assumptions=[A_PLAT, A_CS])

PROPS['C09'] = dict(jobs=[
    J('h_text_wf', p={'n': 1, 'n2': 1, 'mask': 13}, variants=grid(how=[0, 1], mll=[20, 76], fill=[0, 2, 3], pre=[3, 10, 17, 30, 45], cur=[0, 7]) + grid(how=[1], mll=[76, 78, 998], fill=[2, 3, 4], pre=[24, 25, 26, 27, 28, 29], cur=[0]), VARIANTS=grid(how=[0, 1], mll=[20, 40, 76, 78], fill=[0, 2, 3, 4], pre=range(0, 60, 3), cur=[0, 7, 70])),
    J('h_text_wf', p={'n': 2, 'mask': 3}, variants=grid(how=[0, 1], mll=[20, 40], fill=[1, 6], pre=[10, 17, 18, 19, 20, 30], cur=[0, 7])),
    J('h_text_wf', p={'n': 2, 'ch': 1, 'how': 1, 'mask': 64}, variants=grid(fill=[5, 0], pre=[0, 20, 40, 50], mll=[76])),
    J('h_text_wf', p={'n': 2, 'how': 1, 'mask': 32, 'force': 1}, variants=grid(pre=[0, 9], mll=[76], ch=[0])),
], bounds='UTF-8 texts of fillers (0..45 characters of 1, 2 or 3 bytes) and 1..2 arbitrary characters, ISO-8859-1 texts; limits 20, 40, 76, 78, 998; start columns 0 and 7', assumptions=[A_PLAT, A_CS])

PROPS['C10'] = dict(jobs=[
    J('h_inject', p={'n': 2, 'set': 1}, variants=grid(kind=range(32)), P={'n': 3}),
    J('h_inject', p={'n': 2}, variants=grid(kind=[0, 1, 2, 5, 6, 7, 15, 19, 11, 13], pre=[0, 60]) + grid(kind=[6, 7, 9, 23], mode=[1, 2, 3, 4], set=[1]) + grid(kind=[0, 2, 4, 6], intl=[1], set=[1]), P={'n': 3}),
], bounds='values of 2 arbitrary bytes (or over CR, LF, NUL and the syntax characters), alone and after 60 characters, through 32 ways of setting a value; all parameter modes', assumptions=[A_PLAT, A_CS])

PROPS['C11'] = dict(jobs=[
    J('h_param_rt', p={'n': 2}, variants=grid(cls=[9], mode=[0, 2, 4], mll=[0, 76], empty=[1], more=[1]) + grid(cls=[11], mode=[0, 4], mll=[76], empty=[1], more=[1]) + grid(cls=[12], mode=[0, 4], disp=[1], lang=[0, 1], mll=[76]) + grid(cls=[10, 2], mode=[0, 2, 4], disp=[1], lang=[0, 1], mll=[76]), P={'n': 3}),
    J('h_param_rt', p={'n': 1, 'more': 2}, variants=grid(cls=[10], mode=[0, 2, 4], mll=[20, 76], pre=[12, 30, 50, 58, 80], fill=[1, 7, 8]) + grid(cls=[2], name=[3], mode=[0, 2, 4], mll=[40, 76], pre=[5, 12, 30], fill=[2]), VARIANTS=grid(cls=[10, 11], mode=[0, 2, 4], mll=[20, 40, 76], pre=range(0, 90, 5), fill=[1, 2, 7, 8], name=[1, 3])),
    J('h_param_wf', p={'n': 2}, variants=grid(cls=[12], mode=[0, 2, 3, 4], mll=[76], pre=[0, 60]) + grid(cls=[9], mode=[0, 4], mll=[40], pre=[20, 33], fill=[0, 8]), P={'n': 3}),
    J('h_param_parse', p={'n': 2}, variants=grid(pfx=range(13), after=[0, 1, 2]) + grid(pfx=range(1, 9), set=[0], after=[1]), P={'n': 4}),
    J('h_param_foreign', p={'n': 1}, variants=V({'form': 0, 'k': 2, 'tail': 1}, {'form': 0, 'k': 3, 'seps': 0}) + grid(form=[1, 2, 3], k=[1], n=[2], seps=[0, 1]), P={'n': 2}),
], bounds='values of 1..2 characters (arbitrary bytes, printable ASCII, syntax characters, non-ASCII) alone and after 5..80 fixed characters, every generation mode, line lengths 20, 40, 76 and unlimited; every field of 2 arbitrary bytes or syntax characters after 13 prefixes; RFC 2231 values of 2..3 sections in rotated order', assumptions=[A_PLAT, A_CS])

PROPS['C14'] = dict(jobs=[
    J('h_hdr_parse', p={'n': 3}, variants=grid(pfx=[0, 1, 2, 3, 4, 5, 7, 8], sfx=[0, 2], after=[0, 1]) + grid(pfx=[6, 9], regen=[0], sfx=[0, 1]) + grid(pfx=[0, 1, 4, 8], n=[2], set=[0]), P={'n': 4}),
    J('h_hdr_wf', p={'k': 2}, variants=grid(parts=[1, 2], lf=[0, 1], lasteol=[0, 1]) + grid(parts=[2], end=[1], lf=[0, 1]), P={'n': 2}),
    J('h_hdr_wf', p={'k': 1, 'subj': 1, 'n': 2}, variants=grid(parts=[1, 2])),
    J('h_hdr_ops', p={'steps': 2}, variants=grid(init=[0, 1, 2]), P={'steps': 3}),
], bounds='blocks of 10 prefixes followed by 0..3 characters of header syntax (0..2 arbitrary bytes) inside a larger buffer; 1..2 well-formed fields with every separator, fold and line ending; every sequence of 2 field operations on 0..2 fields and copies at every point', assumptions=[A_PLAT, A_CS])

PROPS['C12'] = dict(jobs=[
    J('h_addr_rt', p={'nn': 2}, variants=grid(kind=[0, 3, 4, 5, 6], ncls=[9, 2]) + grid(kind=[0, 5], ncls=[10, 7], how=[0, 1]) + grid(kind=[0, 5], ncls=[9], how=[1], ch=[0, 1, 2], pre=[20, 50, 66, 70], fill=[1]) + grid(kind=[0], ncls=[9, 10], intl=[1], how=[0, 1]) + grid(kind=[0, 5], ncls=[10], ch=[1], pre=[3], fill=[5]), P={'nn': 3}),
    J('h_addr_rt', p={'nn': 1, 'ncls': 8, 'ln': 2}, variants=grid(kind=[0, 1, 2, 3, 5], lcls=[9, 10], lpre=[0, 1], lpost=[0, 1]) + grid(kind=[0, 1, 2, 5], lcls=[2, 3, 4], ln=[1], lpre=[0, 1], lpost=[0, 9, 30]) + grid(kind=[0, 1, 2], lcls=[2, 10], ln=[1], lpre=[0, 1], intl=[1]), P={'ln': 3}),
    J('h_addr_rt', p={'nn': 1, 'ncls': 8}, variants=grid(kind=[0, 1, 2, 3, 5], dom=range(7)) + grid(kind=[0, 1], dn=[2], dcls=[8]), VARIANTS=grid(kind=[0, 1, 2, 3, 5], dom=range(7)) + grid(kind=[0, 1], dn=[1], dcls=[2])),
], bounds='display and group names of 2 characters (printable ASCII, address syntax, 2-byte UTF-8, ISO-8859-1) alone and after fillers of 3..70; local parts of 1..2 characters with fillers around them; 7 kinds of domain; alone, in lists and in groups', assumptions=[A_PLAT, A_CS])

PROPS['C13'] = dict(jobs=[
    J('h_addr_parse', p={'n': 2}, variants=grid(kind=range(5), pfx=range(15), after=[0, 4]) + grid(kind=[0, 2], pfx=range(15), after=[1, 2, 3]), P={'n': 3}),
    J('h_addr_parse', p={'n': 1, 'set': 0}, variants=grid(kind=range(5), pfx=range(15)), P={'n': 2}),
    J('h_addr_forms', variants=grid(form=range(6), cst=range(4)) + grid(form=range(6), ql=[1, 2], cst=[0]) + grid(form=range(6), **{'in': [1, 2, 3]}, cst=[0, 3]) + grid(form=[0, 1, 3], long=[64, 66, 100]), P={'n': 2, 'qn': 2}),
], bounds='every text of 0..2 characters of address syntax (0..1 arbitrary bytes) after each of 15 prefixes, inside a larger buffer with 5 continuations, as each of 5 kinds; 6 forms of address with a comment of 4 shapes in every place, plain and quoted local parts of up to 100 characters, alone, in lists and in groups', assumptions=[A_PLAT, A_CS])

PROPS['C15'] = dict(jobs=[
    J('h_msg_rt', p={'n': 3}, variants=grid(kind=range(5), enc=range(5), bpfx=[0, 1, 2], bnd=[0, 1]) + grid(kind=[1, 3], enc=[0, 4], bpfx=[3, 4, 5], bnd=[0, 2]), P={'n': 5}),
    J('h_msg_rt', p={'n': 2}, variants=grid(kind=[1, 2, 3, 4], enc=[0, 3], text=[0, 1, 2], ptext=[0, 1], two=[1], bpfx=[1]) + grid(kind=[0, 1, 4], enc=range(5), set=[0]) + grid(kind=[1, 3], enc=[0, 3, 4, 5], src=[3, 4, 5], set=[0, 1], blen=[0, 60]), P={'n': 3}),
    J('h_msg_stable', p={'n': 2}, variants=grid(pfx=range(16), sfx=range(6)), P={'n': 3}),
], bounds='messages of one part, of 1..3 parts and of nested parts; bodies of 0..3 characters of boundary and line-break syntax (0..2 arbitrary bytes) after prefixes that imitate boundaries, in every encoding; random and fixed boundaries; prolog and epilog; parsed messages (see C16) copied, generated and parsed again', assumptions=[A_PLAT, A_CS])

PROPS['C16'] = dict(jobs=[
    J('h_msg_parse', p={'n': 3}, variants=grid(pfx=range(16), sfx=range(6)) + grid(pfx=range(16), sfx=[0, 2, 3], off=[0, 1], after=range(1, 5), n=[2]) + grid(pfx=range(16), sfx=[0, 1], set=[0, 2], n=[2]), P={'n': 5}),
    J('h_msg_stream', p={'n': 1}, variants=grid(pfx=range(16), sfx=[0, 3], seekable=[0, 1], at=[40, 44, 48, 52]) + grid(pfx=[4, 5, 9], sfx=[3], seekable=[1], at=range(44, 120, 4), n=[1]), P={'n': 2, 'cuts': 6}),
], bounds='messages of 16 prefixes (multipart headers, nested multiparts, missing and empty boundaries), then 0..3 characters of boundary syntax (0..2 arbitrary bytes), then 6 endings, followed by 5 continuations outside the message; every set of cuts at 4 consecutive places of the source', assumptions=[A_PLAT, A_CS])

PROPS['C17'] = dict(jobs=[
    J('h_date_rt', variants=grid(dig=[0, 5, 10], zdig=[1], zneg=[0], y=[1]) + grid(dig=[16], zdig=[1], zneg=[1], y=[1]) + grid(dig=[47], zh=[6, 12], y=[11]), VARIANTS=grid(dig=[0, 1, 2, 4, 8, 16, 32, 47, 63], zdig=[1], zneg=[0, 1], y=[1]) + grid(dig=[47], zh=[6, 12], y=[11])),
    J('h_date_utc', variants=grid(zneg=[0, 1], zh=[1, 8, 12], y=[0, 1, 4, 6]), VARIANTS=grid(zneg=[0, 1], zh=range(13), y=range(16))),
    J('h_date_local', variants=grid(zneg=[0, 1], zh=[2], wneg=[0, 1], wh=[1, 5], y=[4], zm=[30]) + grid(zneg=[0], zh=[12], wneg=[1], wh=[8], y=[0], zm=[59])),
    J('h_date_cmp', variants=grid(op=[0, 2, 5], zneg=[0], zh=[1], wneg=[1], wh=[2], y=[1], mc=[2], zm=[30]) + grid(op=range(6), zneg=[1], zh=[1], wneg=[0], wh=[3], y=[0], dy=[1], zm=[45]), VARIANTS=grid(op=range(6), zneg=[0, 1], zh=[1, 5], wneg=[0, 1], wh=[2], y=[1], mc=[1, 2, 12], zm=[30]) + grid(op=range(6), zneg=[0, 1], zh=[1], wneg=[0, 1], wh=[3], y=[0, 4], dy=[1], zm=[45])),
    J('h_date_week', variants=[dict(y=y, y2=y) for y in (1900, 1999, 2000, 2004, 2010, 2015, 2020, 2100)] + [dict(y=1600, y2=2000, week=0)]),
    J('h_date_parse', p={'n': 1}, variants=grid(pfx=range(22), sfx=range(6)) + [dict(pfx=i, aft=i % 5, n=2) for i in range(22)], VARIANTS=grid(pfx=range(22), sfx=range(6), aft=[0, 3], n=[2])),
    J('h_date_forms', variants=grid(form=range(11), lower=[0, 1], d1=[0, 1]) + grid(form=[0, 5, 6], sp=[1, 2, 3])),
], bounds='all days and times of 16 years around leap years, centuries and extremes; zones of 0..99 hours (13 values of hours, every minute) and either sign; all days of 1600..2000 (day of the week) and of 8 years (week of the year); texts of 22 prefixes, 0..2 arbitrary bytes and 6 endings; every well-formed RFC 822 form', assumptions=[A_PLAT])

PROPS['C18'] = dict(jobs=[
    J('h_url_codec', variants=grid(tail=[0, 1])),
    J('h_url_rt', variants=grid(who=range(6), set=[0, 1, 2]) + grid(who=range(6), set=[1], bare=[0, 1], cpre=[0, 1], port=[2], n=[1]) + grid(who=[2, 3, 5], set=[1], cpost=[1], port=[2], second=[1]) + grid(who=[2], port=[1], n=[1], set=[1]) + grid(file=[1], who=[3, 4, 5], set=[0, 1], bare=[0, 1]), P={'n': 3}),
    J('h_url_parse', p={'set': 1}, variants=grid(pfx=range(23), sfx=range(6)) + grid(pfx=range(23), sfx=[0, 2], set=[0]), P={'n': 3}),
    J('h_url_forms', p={'n': 1}, variants=grid(form=range(8), tail=[0, 1], upper=[0, 1])),
], bounds='components of 0..2 arbitrary bytes, or characters of URL syntax, alone and inside other text, with the others present or absent; every port; texts of 23 prefixes, 0..2 characters of URL syntax (or arbitrary bytes) and 6 endings; well-formed URLs with one raw or percent-encoded character in each component', assumptions=[])

PROPS['C19'] = dict(jobs=[
    J('h_path_ops', variants=grid(kinds=[1, 3, 4], max=[1, 2]) + [dict(kinds=1, max=3)], P={'max': 3}),
    J('h_path_rename', variants=grid(kinds=[1, 3]) + grid(kinds=[1], max=[3], omax=[3], nmax=[2])),
    J('h_path_text', variants=grid(sep=range(4), kind=[0, 1], latin=[0, 1])),
], bounds='paths of 0..3 components, each a character of ASCII, ISO-8859-1 or UTF-8 (or two arbitrary bytes), in different charsets; separators of one and two characters', assumptions=[A_CS])

PROPS['C20'] = dict(jobs=[
    J('h_utf7_rt', p={'n': 1}, variants=grid(cls=range(5), npre=range(6), npost=[0]) + grid(cls=[0, 1, 4], npre=range(6), npost=[2]) + grid(cls=[5], n=[2], sep=range(5), npre=[0, 1, 2]), VARIANTS=grid(cls=range(5), npre=range(6), npost=range(6), sep=[0, 1]) + grid(cls=[5], n=[3], sep=range(5), npre=range(3)) + grid(cls=[0, 1, 4], n=[2], npre=[0, 2])),
    J('h_utf7_path', p={'n': 1}, variants=grid(cls=[0, 2, 5], npre=[0, 2], sep=[0, 1], latin=[0, 1])),
    J('h_utf7_foreign', p={'n': 2}, variants=grid(pfx=range(10), sfx=range(5), set=[0, 1]), P={'n': 3}),
], bounds='names of 1 to 2 arbitrary characters (every code point up to U+10FFFF, in valid UTF-8) inside other text; separators / . ^ | and backslash; paths of 1 to 2 components; mailbox names of 0..2 arbitrary bytes between 10 prefixes and 5 endings', assumptions=[A_CS])

PROPS['C23'] = dict(jobs=[
    J('h_mset_num', variants=grid(wide=[0, 1, 2]), P={'n': 4}),
    J('h_mset_uid', variants=grid(n=[1], ks=range(7)) + grid(n=[2], ks=[0, 70, 11, 12, 2, 10, 3, 88, 80, 5, 6]) + [dict(n=0), dict(n=3, ks=777), dict(n=3, ks=887)], VARIANTS=grid(n=[2], ks=range(89)) + grid(n=[3], ks=[0, 777, 887, 707, 7, 370])),
    J('h_mset_text', variants=grid(uid=[0, 1]), P={'n': 3}), J('h_mset_list', P={'n': 3}), J('h_mset_ops', P={'ops': 4}), J('h_mset_bad'),
], bounds='lists of 0..3 arbitrary 64-bit numbers; lists of 0..3 UIDs of digits (short, around 2^32, longer), with leading zeros, empty or not numbers; sets of 1..2 ranges of boundary values, open or closed; mailboxes of 0..5 messages; sequences of 3 copies, assignments and additions over 3 sets', assumptions=[])

PROPS['C21'] = dict(jobs=[
    J('h_md_flags', variants=grid(pfx=range(4), set=[0, 1], n=[1]), VARIANTS=grid(pfx=range(4), set=[0, 1], n=[2])),
    J('h_md_path', p={'n': 1}, variants=grid(courier=[0], kind=range(7), npre=[0, 1, 3, 4]) + grid(courier=[0], kind=[0, 1], npre=[0, 1], n=[2], sympos=[0, 1]) + grid(courier=[1], kind=[0, 1, 5], npre=range(5)) + grid(courier=[1], kind=[1], npre=[0, 1], n=[2], sympos=[0, 1]), VARIANTS=grid(courier=[0], kind=range(7), npre=[0, 1, 3, 4], n=[2]) + grid(courier=[1], kind=[0, 1, 2, 5], npre=range(5), sympos=[0, 1])),
    J('h_md_distinct', p={'n': 1}, variants=grid(courier=[0, 1], kind=range(6), kind2=range(6), npre=[0, 1]), P={'n': 2}),
    J('h_md_path', p={'n': 2, 'npre': 2, 'courier': 0}, reach=[], variants=grid(kind=[0, 1], sympos=[0, 1])),
    J('h_md_tree', p={'n': 1}, variants=grid(courier=[0, 1], kind=range(1, 7), npre=[0, 1, 3, 4])),
], bounds='identifiers of 0..1 arbitrary bytes after 4 prefixes, with every set of flags; folder paths of 1 to 2 components, each 0..2 arbitrary bytes, special characters or one UTF-8 character of any length after 5 prefixes; KMail and Courier layouts; trees of 7 folders', assumptions=[A_PLAT, A_CS, 'the POSIX file system model (harness/vfs.hpp) under the real posixFile.cpp'])

PROPS['C22'] = dict(jobs=[
    J('h_md_fault', variants=grid(op=range(5), mode=range(1, 6), arm=[0, 1], fresh=[0, 1]) + grid(op=[0, 3], mode=range(1, 6), courier=[1]) + grid(op=[0], mode=range(1, 6), flags=[9, 2, 16]) + grid(op=[0, 1], mode=range(1, 6), fill=[4096], n=[1]) + grid(op=[2], mode=[1, 2], flags=[1, 4, 32])),
    J('h_md_history', variants=grid(ops=[1, 2]) + grid(ops=[3], first=[3, 4, 5, 6, 7]), VARIANTS=grid(ops=[3], first=range(8)) + grid(ops=[2], courier=[1])),
    J('h_md_renamed', variants=grid(courier=[0, 1])),
], bounds='one failing, short, interrupted or last system call, at any of the first 40 calls, in adding, copying, flagging, expunging and counting; messages of 0..2 arbitrary bytes, alone or after 4096 others; histories of 1 to 3 operations (flags of all modes, expunge, add, deliver, status, close and open, copy) over a folder of 3 messages', assumptions=[A_PLAT, 'the POSIX file system model (harness/vfs.hpp) under the real posixFile.cpp: operations on names are atomic and ordered, written data is kept'])

PROPS['C43'] = dict(jobs=[
    J('h_md_read', p={'n': 2}, variants=grid(kind=[0, 1, 2, 4], shape=[0, 1, 2], isnew=[0, 1]) + grid(kind=[0, 1], shape=[0, 1], set=[1], n=[3]) + grid(kind=[0], nofetch=[1]) + grid(kind=[0, 1], fill=[1020, 8190], n=[1]) + grid(kind=[3, 4], shape=[0, 1, 2]) + grid(kind=[3], shape=[0], hfill=[956, 1980], n=[0, 1]) + grid(kind=[3], shape=[1], hfill=[940], n=[0]), P={'n': 3}),
], bounds='messages of one part, of two parts and of nested parts, with 0..2 arbitrary bytes (0..3 line break and delimiter characters), alone or after 1020 or 8190 others; the whole message, every part and 30 ranges of each, from the start, around the end and beyond it; headers around 1 and 2 reads of 1024 bytes', assumptions=[A_PLAT, A_CS, 'the POSIX file system model (harness/vfs.hpp) under the real posixFile.cpp'])

PROPS['C44'] = dict(jobs=[
    J('h_file_attach', variants=grid(src=[0, 1, 2, 3], enc=[0, 1, 3], n=[1], desc=[0, 1], dates=[1], twice=[0, 1]) + grid(src=[0, 1], name=[1], mask=[1, 4, 5, 16], n=[0]) + grid(src=[0, 3], enc=[0, 2], n=[2]) + grid(src=[0, 2, 3], pre=[60, 61, 4094, 4095, 4096], post=[0, 3], enc=[0, 1, 2], n=[1]), VARIANTS=grid(src=[0, 1, 2, 3], enc=[0, 1, 2, 3], n=[2], desc=[0, 1], dates=[1], twice=[0, 1]) + grid(src=[0, 1], name=[2], mask=[1, 2, 4], n=[0])),
    J('h_file_missing'), J('h_file_info', p={'ops': 3}, P={'ops': 4}), J('h_file_copy'),
    J('h_file_body', variants=grid(pre=[0, 60, 4095], post=[0, 3], enc=[0, 1, 3], coded=[0, 1, 3], n=[1]) + grid(enc=[0, 2], coded=[0, 2], n=[2])),
    J('h_file_fault', variants=grid(pre=[0, 1022, 4095, 8190], at=[6])),
], bounds='files of 0..2 arbitrary bytes alone or around 60 and 4096 others, attached by path, by content, by file and by the copy of a file, with names and descriptions of one more character of each class, all sets of dates, 4 encodings; contents already encoded or not; 3 operations on two descriptions of files among 7; a failed or short call at each of the first 6 calls', assumptions=[A_PLAT, A_CS, 'the POSIX file system model (harness/vfs.hpp) under the real posixFile.cpp'])

PROPS['C26'] = dict(jobs=[
    J('h_smtp_reply', p={'n': 2}, variants=grid(pfx=range(17), sfx=range(8)) + grid(pfx=range(15), sfx=[1, 4, 7], set=[1], frag=[1]) + grid(pfx=range(15), sfx=[2, 5, 6], set=[1], frag=[2], cuts=[8]) + grid(pfx=range(15), sfx=[1, 3], set=[1], frag=[3], n=[1]) + grid(pfx=range(15), sfx=[1], set=[1], part=[12]), P={'n': 3}, VARIANTS=grid(pfx=range(15), sfx=range(8), set=[0, 1], frag=[0, 1]) + grid(pfx=range(15), sfx=range(8), set=[1], frag=[2], cuts=[20], n=[2])),
], bounds='server streams of 15 beginnings, 0..2 arbitrary bytes (or characters of replies) and 8 continuations, read as up to 3 replies; whole, byte by byte, cut at each of the first 8 places, with empty reads, and with any part already buffered', assumptions=[A_PLAT, 'the server and network model of harness/net.hpp under the socket interface'])

PROPS['C27'] = dict(jobs=[
    J('h_smtp_data', p={'n': 2}, variants=grid(dpre=range(8), dpost=range(6), piece=[1, 2, 100]) + grid(dpre=range(8), dpost=range(6), dset=[0]) + grid(dpre=range(8), dpost=[0, 3], pipe=[1]), P={'n': 4}),
    J('h_smtp_bdat', variants=grid(writes=[1, 2], pipe=[0, 1], fill=[0, 1]) + grid(writes=[2], pipe=[0], fill=[2]), VARIANTS=grid(writes=[1, 2, 3], pipe=[0, 1], fill=[0, 1, 2])),
], bounds='messages of 8 beginnings, 0..2 arbitrary bytes (or dots and line ends) and 6 endings, read from the source in pieces of 1, 2 or more bytes; chunks of 1 to 2 writes of 0..2 arbitrary bytes around 1 and 2 times the size of a chunk', assumptions=[A_PLAT, 'the SMTP server model of harness/smtp.cpp'])

PROPS['C36'] = dict(jobs=[
    J('h_smtp_session', variants=grid(msgs=[2], pipe=[0, 1], chunk=[0, 1], ref=[3], retry=[0, 1]) + grid(msgs=[3], pipe=[0, 1], chunk=[0, 1], ref=[2]) + grid(msgs=[2], pipe=[1], chunk=[0, 1], nr=[4], ref=[3]) + grid(msgs=[2], pipe=[1], chunk=[0], frag=[1, 3], ref=[2]), VARIANTS=grid(msgs=[3], pipe=[0, 1], chunk=[0, 1], ref=[4], retry=[0, 1]) + grid(msgs=[3], pipe=[1], chunk=[0, 1], nr=[3, 5], ref=[4]) + grid(msgs=[2], pipe=[0, 1], chunk=[0, 1], frag=[1, 3], ref=[3])),
    J('h_smtp_bdat', variants=grid(ref=[1, 2], lenient=[0, 1], writes=[1, 2], pipe=[0, 1], fill=[1]), VARIANTS=grid(ref=[1, 2, 3], lenient=[0, 1], writes=[1, 2, 3], pipe=[0, 1], fill=[1, 2])),
    J('h_smtp_addr', variants=grid(utf8=[0, 1], dom=[0, 1], set=[0, 1], rcpt=[0, 1], n=[2]) + grid(utf8=[0, 1], size=[5], n=[1]), P={'n': 3}),
], bounds='sessions of 2 to 3 messages of 1 to 4 recipients, with every choice of up to 3 refusals among the commands and the messages, with and without PIPELINING and CHUNKING, closing the connection after an error or not; addresses with 1..2 arbitrary bytes in the local part or the domain, as ASCII or SMTPUTF8', assumptions=[A_PLAT, A_CS, 'the SMTP server model of harness/smtp.cpp (RFC 5321, 2920, 3030): it refuses any command or accepts it'])

PROPS['C28'] = dict(jobs=[
    J('h_pop3_reply', p={'n': 2}, variants=grid(st=[0, 1, 2, 3, 5, 6], multi=[0, 1], lf=[0, 1]) + grid(st=[4], tn=[3], frag=[0, 1]) + grid(multi=[1], st=[0], frag=[0, 1, 2, 3], lf=[0, 1], set=[1, 2], lpre=[0, 1, 2]) + grid(multi=[1], st=[0, 1], frag=[1], lines=[3], n=[1]), P={'n': 3}, VARIANTS=grid(st=[0, 1, 2, 3, 5, 6], multi=[0, 1], lf=[0, 1], frag=[0, 1]) + grid(multi=[1], st=[0], frag=[0, 1, 2, 3], lf=[0, 1], set=[1, 2], lpre=[0, 1, 2], n=[3])),
    J('h_pop3_large', p={'n': 2}, variants=grid(frag=[0, 1, 2, 3], set=[0, 1], lf=[0, 1]) + grid(set=[1], lines=[3], lf=[0, 1]) + grid(set=[1], lines=[1], fill=[65530, 131058], lf=[0, 1]), P={'n': 3}),
    J('h_pop3_large', variants=grid(st=[1, 5, 6], frag=[0, 1], lf=[0, 1]), reach=['err']),
    J('h_pop3_listing', variants=grid(big=[0, 1]), P={'lines': 4}),
    J('h_pop3_garbage', p={'n': 4}, variants=grid(pre=range(4), kind=range(3), set=[0, 1]), P={'n': 6}),
], bounds='replies of 7 statuses, texts of 0..1 and up to 3 lines of 0..2 arbitrary bytes (or dots and carriage returns after up to 2 dots), messages of up to 3 lines of 0..2 arbitrary bytes, alone or after lines around 64 and 128 KiB; CRLF or LF, whole, byte by byte, cut at each of the first 30 places, with empty reads; listings of up to 3 messages; 0..4 arbitrary bytes in any place', assumptions=[A_PLAT, 'the server and network model of harness/net.hpp under the socket interface'])

PROPS['C37'] = dict(jobs=[
    J('h_pop3_session', variants=grid(msgs=[2, 3], ops=[2], ref=[1, 2]) + grid(msgs=[2], ops=[3], ref=[1]) + grid(msgs=[2], ops=[2], ref=[1], frag=[1, 2, 3], cuts=[20]) + grid(msgs=[2], ops=[1], n=[2], first=[2, 3], frag=[0, 1, 3]), VARIANTS=grid(msgs=[2, 3], ops=[3], ref=[1, 2]) + grid(msgs=[2], ops=[4], ref=[1]) + grid(msgs=[2], ops=[2], ref=[2], frag=[1, 2, 3]) + grid(msgs=[2], ops=[1], n=[3], first=[2, 3], frag=[0, 1, 3])),
    J('h_pop3_auth', variants=grid(apop=[0, 1, 2], useApop=[0, 1], n=[2], ref=[2]) + grid(apop=[0, 1], n=[1], frag=[1, 2, 3]), P={'n': 3}),
], bounds='sessions of 1 to 3 operations (fetching all or one, header, content, part, deleting a range, closing and opening) over 2 to 3 messages of 0..2 dots, line ends and letters, with every choice of up to 2 refusals, in 4 ways of fragmentation; user names and passwords of 0..2 arbitrary bytes with and without APOP', assumptions=[A_PLAT, A_CS, 'the POP3 server model of harness/pop3.cpp (RFC 1939): it refuses any command or accepts it'])

PROPS['C24'] = dict(jobs=[
    J('h_imap_garbage', p={'n': 2, 'frag': 2}, variants=grid(pfx=range(40), sfx=[0, 1]) , P={'n': 3}, VARIANTS=grid(pfx=range(40), sfx=range(6))),
    J('h_imap_garbage', p={'n': 2}, variants=grid(pfx=range(40), sfx=[0, 1, 3], set=[0]) + grid(pfx=[0, 1, 2, 3, 4, 5, 6, 12, 16, 17, 21, 22, 23, 24, 25, 26, 31, 32], sfx=[0, 1], set=[2], n=[3], lh=[1]) + grid(pfx=[8, 9, 10, 11, 38], sfx=[0, 1, 3], set=[1], n=[3], lh=[1], frag=[3]) + grid(pfx=range(40), sfx=[0], strict=[1]) + grid(pfx=[0, 1, 36], what=[1], n=[3], frag=[2]), P={'n': 3}),
    J('h_imap_values', p={'n': 2}, variants=grid(form=range(14), other=[0, 1, 2], frag=[0, 1], two=[0, 1]) + grid(form=range(14), strict=[1]) + grid(form=[2, 3, 9], pre=[20], frag=[2], cuts=[60]), P={'n': 3}),
    J('h_imap_literal', p={'n': 3}, variants=grid(form=[0, 1, 2], frag=[0, 1, 2, 3], pre=[0, 3]), P={'n': 5}),
    J('h_imap_numbers', p={'n': 2}, variants=grid(form=range(17), pre=[0, 1, 2, 3]), P={'n': 3}),
    J('h_imap_texts', variants=grid(two=[0, 1], frag=[0, 1, 3]) + grid(two=[1], frag=[2], cuts=[100])),
    J('h_imap_tags', variants=grid(frag=[0, 1, 2])),
], bounds='2..3 arbitrary bytes (or syntax characters) after 40 prefixes, followed by 6 suffixes and complete responses, delivered whole, byte by byte, with empty reads and cut once anywhere; 14 responses with strings of 0..2 arbitrary bytes, quoted, as literals or NIL, in every place; numbers of up to 3 arbitrary digits, alone or at the end of 7 to 10 digits; 20 known responses and every pair of them; three responses in every order', assumptions=[A_PLAT])

PROPS['C25'] = dict(jobs=[
    J('h_imap_cmd', p={'n': 2}, variants=grid(kind=range(10), set=[0, 1], pre=[0, 2, 3]) + grid(kind=[2], ro=[1], par=[0, 1]) + grid(kind=[4, 8], par=[1]) + grid(kind=[9], uid=[1], set=[1]), P={'n': 3}),
    J('h_imap_cmd', variants=grid(kind=range(10), set=[1]), reach=['refused']),
    J('h_imap_search', p={'n': 2}, variants=grid(kind=list(range(8)) + [11, 12, 13], set=[0, 1], pre=[0, 2]) + grid(kind=[8, 14]) + grid(kind=[9, 10], open=[0, 1]), P={'n': 3}),
    J('h_imap_fetch', p={'n': 2}, variants=grid(peek=[0, 1], imp=[0, 1], set=[0, 1], pre=[0, 2]), P={'n': 3}),
], bounds='user name, password, mailbox names, search texts, header names and charset names of 0..2 arbitrary bytes (or quotes, backslashes, brackets, wildcards, line ends) after 3 beginnings, in LOGIN, LIST, SELECT, STATUS, CREATE, DELETE, RENAME, APPEND, COPY, FETCH, SEARCH with each kind of key', assumptions=[A_PLAT, 'the reader of astrings of harness/imapcmd.cpp (RFC 3501; 8-bit characters are allowed in quoted strings)'])

PROPS['C30'] = dict(jobs=[
    J('h_tls_required', variants=grid(proto=[0, 1, 2], hostile=[0, 1, 2], sasl=[0, 1]) + grid(proto=[0, 1, 2], hostile=[1], required=[0], sasl=[0, 1]) + grid(proto=[0, 1, 2], hostile=[1], frag=[1, 2, 3], cuts=[20]) + grid(proto=[0, 1, 2], hostile=[3]) + grid(proto=[0, 1, 2], implicit=[1], sasl=[0, 1], frag=[0, 1]) + grid(proto=[1], hostile=[1, 2], apop=[1], sym=[1, 3]) + grid(proto=[0, 1, 2], hostile=[1], conns=[2], tls=[0]), VARIANTS=grid(proto=[0, 1, 2], hostile=[1], conns=[2], tls=[0, 1, 2], sasl=[0, 1]) + grid(proto=[0, 1, 2], hostile=[3, 4], sasl=[0, 1], sym=[3]) + grid(proto=[0, 1, 2], hostile=[2], frag=[1, 2, 3], cuts=[40]), reach=['end', 'secured']),
], bounds='SMTP, POP3 and IMAP sessions with STARTTLS (and SMTPS, POP3S, IMAPS), 1 to 2 connections, with SASL, APOP or passwords; in clear the server answers each command as usual or, up to 3 times, with one of 10 other answers (errors, other codes, more replies than asked for, none of the protocol) or with 2 arbitrary bytes before the usual one; the handshake succeeds, fails, or refuses the certificate; under TLS the server accepts the user or not; 4 ways of fragmentation', assumptions=[A_PLAT, 'the TLS library as a model (handshake outcome chosen; pending clear data makes it fail)', 'GNU SASL as a model (stubs/gsasl.cpp)'])

PROPS['C38'] = dict(jobs=[
    J('h_sasl', variants=grid(proto=[0, 1, 2], budget=[1, 2], n=[1]) + grid(proto=[0, 1, 2], n=[3], errors=[0, 1]) + grid(proto=[1, 2], fallback=[1]) + grid(proto=[0, 1, 2], oauth=[1, 2], unknown=[0, 1], n=[1]) + grid(proto=[0, 1, 2], frag=[1, 3], n=[1]), P={'n': 3}, VARIANTS=grid(proto=[0, 1, 2], budget=[2], n=[2], errors=[2], fallback=[0, 1]) + grid(proto=[0, 1, 2], n=[5], budget=[0]) + grid(proto=[0, 1, 2], oauth=[1, 2], unknown=[0, 1])),
    J('h_sasl', variants=grid(proto=[0, 1, 2], layer=[1, 2, 4], n=[1], frag=[0, 1]) + grid(proto=[2], layer=[2], frag=[2], cuts=[30], n=[0]), reach=['end', 'layer']),
    J('h_sasl_socket', variants=grid(dir=[0], count=[0, 1, 2, 3], layer=[1, 2, 4], pre=[0, 1, 2, 3], frag=[0, 1, 3]) + grid(dir=[1], mode=[0, 1, 2], layer=[1, 2, 4], pre=[0, 1]), P={'n': 5}),
], bounds='exchanges of up to 3 challenges and responses of 0..3 arbitrary bytes, with errors of the mechanism at any step, the server accepting or refusing at any step, 1 to 3 mechanisms (one the model chooses, PLAIN, XOAUTH2) among unknown ones, fallback or not; layers that change, lengthen or delay the bytes, in 4 ways of fragmentation, read 1 to 3 bytes at a time or whole', assumptions=[A_PLAT, 'GNU SASL as a model (stubs/gsasl.cpp): mechanisms and layers decode any piece of the stream they are given'])

PROPS['C31'] = dict(jobs=[
    J('h_cert_verify', variants=grid(n=[1, 2, 3]) + grid(n=[2], roots=[0, 2], trusted=[0]) + grid(n=[2], roots=[0], trusted=[2]) + grid(n=[1], roots=[2], trusted=[2]) + grid(n=[1, 2], nomd5=[1]) + grid(n=[4], vals=[2]), VARIANTS=grid(n=[1, 2, 3, 4], roots=[0, 1, 2], trusted=[0, 1, 2]) + grid(n=[5], vals=[2]), reach=['end'], p={'roots': 1, 'trusted': 1}),
    J('h_cert_verify', p={'roots': 1, 'trusted': 1, 'n': 2}, reach=['end', 'accepted']),
    J('h_cert_verify', variants=grid(n=[0], roots=[0, 1], trusted=[0, 1])),
    J('h_cert_mixed', variants=grid(n=[1, 2, 3])),
    J('h_cert_io', variants=grid(list=[0, 1], stream=[0, 1], pem=[0, 1], n=[1, 2, 3], junk=[0, 1]) + grid(list=[0, 1], stream=[0, 1], empty=[1])),
], bounds='chains of 0..4 certificates, 0..2 root CAs and trusted certificates; every combination of identity, subject, issuer, key, signing key (3 values each), CA and version, start and end of validity (before, at, after now), host name and MD5 fingerprint of each', assumptions=['a model of the GnuTLS certificate functions: issuance compares names, verification checks the issuer, its being a CA, the signature and the dates, as the library documents', A_PLAT])
PROPS['C39'] = dict(jobs=[
    J('h_tls_handshake', variants=grid(certs=[0, 1, 2], starttls=[0, 1]) + grid(certs=[2], junk=[1, 2]) + grid(certs=[1], fails=[1], frag=[0, 1, 3], starttls=[0, 1]) + grid(certs=[3], stalls=[2], parts=[2], intr=[2], errs=[4], fails=[1])),
    J('h_tls_data', variants=grid(dir=[0], count=[0, 1, 2, 3], close=[0, 1], fails=[0, 1], frag=[0, 1, 3], record=[1, 2]) + grid(dir=[1], mode=[0, 1, 2], fails=[0, 1], record=[1, 2, 4]) + grid(dir=[1], mode=[0, 1, 2], n=[4], stalls=[2], parts=[2], fails=[1]), P={'n': 5}),
], bounds='handshakes with 0..3 certificates (some undecodable), errors, interruptions, up to 2 stalls and 2 partial writes at any place, the network failing at any operation; data of 1..4 arbitrary bytes in records of 1..4 bytes, every division, reads of 1..3 bytes, the peer closing', assumptions=['a model of the GnuTLS record layer: records of masked bytes, a pending record resumed after EAGAIN, an empty record closing', A_PLAT])

PROPS['C40'] = dict(jobs=[
    J('h_imap_session', variants=grid(ev=[0], ref=[0, 1], ops=[2], lit=[0, 1], bynum=[0, 1], cond=[0, 1]) + grid(ev=[1], ref=[0], ops=[2], pos=[0, 1], first=[0, 1, 3, 4, 5, 7, 9, 10], second=[1, 2, 3, 4, 6]) + grid(ev=[1, 2], ref=[1], ops=[1], pos=[0, 1], bynum=[0, 1], both=[1]) + grid(ev=[1], ref=[1], ops=[1], msgs=[1, 3], pos=[0, 1], recent=[1]) + grid(ev=[1], ref=[1], ops=[1], frag=[1, 3]) + grid(ev=[0], ref=[0], ops=[3], first=[5], second=[6]), VARIANTS=grid(ev=[1], ref=[1], ops=[2], pos=[0, 1], bynum=[0, 1], both=[0, 1]) + grid(ev=[2], ref=[0], ops=[2], pos=[0, 1], first=range(11), second=range(11)) + grid(ev=[1], ref=[1], ops=[3], first=[5], second=[6], pos=[0, 1]) + grid(ev=[2], ref=[2], ops=[1], msgs=[3], both=[1], pos=[0, 1], frag=[0, 1, 3])),
    J('h_imap_parts', p={'n': 1}, variants=grid(lit=[0, 1, 2], shape=range(4), kind=range(4), byuid=[0, 1]) + grid(lit=[0, 1], shape=[1, 2], kind=[0], set=[0, 1], n=[2], frag=[0, 1, 3]) + grid(shape=[1, 2, 3], kind=[1], edge=[1], lit=[0, 1]) + grid(ro=[1], shape=[1], kind=[0, 2]) + grid(shape=[4, 5], kind=range(4), n=[0], lit=[0, 1]), P={'n': 2}),
    J('h_imap_parsed', variants=grid(shape=range(6), lit=[0, 1, 2], frag=[0, 1])),
    J('h_imap_open', variants=grid(ref=[0, 1]), reach=['end', 'rw']),
    J('h_imap_folders', variants=grid(sep=[0, 1], ref=[0, 1], ops=[1, 2]), VARIANTS=grid(sep=[0, 1], ref=[2], ops=[2]) + grid(sep=[0], ref=[0], ops=[3])),
    J('h_imap_attributes', variants=grid(name=range(4), ops=[2]) + grid(name=[0], ops=[3]) + grid(name=[1], after=[1], ops=[1]), P={'ops': 4}),
    J('h_imap_flags', variants=grid(init=[0, 1], gone=[0, 1])),
    J('h_imap_append', p={'n': 2}, variants=grid(set=[0, 1], plus=[0, 1]) + grid(date=[1], n=[0]) + grid(fill=[16384, 32767, 32768], n=[1], frag=[0]), P={'n': 3}),
], bounds='sessions of 1 to 3 operations (12 kinds) over 1 to 3 messages known by UID or by number, with up to 2 changes made by another client (new message, flags, message expunged) told before or after the data, at once or when the server can, and up to 1 refusal, at any place; messages of 6 structures (up to 12 parts, up to 4 levels) with 0..2 arbitrary bytes, every part, whole or from 5 places around its limits in 5 lengths, as literals, quoted strings or NIL; histories of 1 to 2 operations on 6 mailboxes with two separators', assumptions=[A_PLAT, A_CS, 'the IMAP server model of harness/imapfolder.cpp (RFC 3501, 4315, 4551): it refuses any command or accepts it'])

R = range
PROPS['C29'] = dict(jobs=[
    J('h_props_map', p={'ops': 2, 'n': 2}, P={'ops': 3}),
    J('h_props_conv', variants=grid(kind=R(6))),
    J('h_props_parse', variants=grid(k=[1], n=[1, 2], blanks=[3], semis=[2], first=[0, 1]) + grid(k=[2], n=[1], blanks=[2], semis=[2]), P={'k': 3, 'n': 0}),
    J('h_props_any', variants=grid(pfx=R(7), n=[3]) + grid(pfx=[0, 1, 2, 3], set=[0], n=[2]), P={'n': 4}),
], bounds='histories of 2 operations (7 kinds) over 4 names with values of 0..2 arbitrary bytes; integers near 7 places, words of 4 letters, numbers of 1..3 digits; texts listing 1 to 2 properties with names and values of 1..2 arbitrary characters, alone or quoted, and any text of up to 3 characters after 7 beginnings', assumptions=[A_PLAT])

PROPS['C32'] = dict(jobs=[
    J('h_build', variants=grid(kind=[0, 1, 2], atts=[0, 1, 2], att=[0, 3], objs=[0]) + grid(kind=[0], atts=[1], att=[1], aenc=[0, 1]) + grid(kind=[1, 2], objs=[1, 2], objenc=[0, 2]) + grid(kind=[0], atts=[1], att=[2], src=[0, 1]) + grid(kind=[2], atts=[1], objs=[1], mll=[40], src=[1]), VARIANTS=grid(kind=[0, 1, 2], n=[2], set=[0, 1], pre=[0, 75, 76], atts=[0, 1])),
    J('h_build', variants=grid(kind=[0, 1], n=[1], pre=[74, 75, 76, 77], fill=[0, 1, 2], post=[0, 2]) + grid(kind=[0, 2], n=[2], set=[1], fill=[0, 2]), VARIANTS=grid(kind=[0, 1, 2], n=[2], pre=[74, 75, 76, 77], post=[2], fill=[0, 1, 2])),
    J('h_build', variants=grid(atts=[1, 2], drop=[1], n=[0], kind=[0, 2]) + grid(to=[0], cc=[1, 2, 3], n=[0], names=[0, 1]) + grid(cc=[2, 3], n=[0])),
    J('h_build', variants=grid(subj=[1, 2], names=[0, 1], cc=[1], ch=[0, 1], n=[0]) + grid(atts=[1], att=[0, 2], n=[0], named=[1, 2], amask=[1, 4], desc=[0, 1]) + grid(atts=[1], att=[0, 2], n=[0], named=[1, 2], amask=[16], desc=[0]) + grid(atts=[1], n=[0], named=[0], att=[0, 1, 2])),
    J('h_attach', variants=grid(msg=R(9), k=[1, 2], amsg=[0, 1], between=[0]) + grid(msg=R(9), k=[2], between=[1]), P={'n': 2}),
    J('h_msgparser_any', variants=grid(root=[1], n=[1, 2]) + grid(root=[0], k=[1, 2], n=[1]), P={'n': 2}, VARIANTS=grid(root=[0], k=[3], n=[0])),
], bounds='plain and HTML texts of 0..2 arbitrary bytes alone or inside fillers reaching the end of a line, 0..2 embedded objects, 0..2 attachments (given as data, with an encoding, as files, or already encoded) of 0..2 arbitrary bytes, subjects and names of 1..3 characters of each class; 1 to 2 attachments added to 9 kinds of messages; every message of 1 or 2 parts among 8 types and 6 dispositions', assumptions=[A_PLAT, A_CS])

PROPS['C33'] = dict(jobs=[
    J('h_fields_rt', p={'kind': 6}, variants=grid(n=[1, 2], mll=[76, 0, 30])),
    J('h_fields_parse', p={'kind': 6}, variants=grid(pfx=R(8), after=[0, 1, 2], used=[0, 1], n=[2]) + grid(pfx=[0, 1, 2, 3], set=[0], n=[1]), P={'n': 3}),
    J('h_fields_foreign', p={'kind': 6}, variants=grid(n=[1, 2])),
    J('h_disp_mods', p={'ops': 3}, P={'ops': 4}),
    J('h_mdn', variants=grid(mid=[0, 1], two=[0, 1], txt=[0], ua=[0, 1, 3], extra=[0, 1]) + grid(subj=[1], tn=[2], pre=[0, 75], fill=[0, 1, 2], txt=[0, 1]) + grid(n=[2]), P={'n': 2, 'tn': 3}),
    J('h_mdn_confirm'),
], bounds='modes, types and modifiers of 1..2 letters; any text of up to 2 characters after 8 beginnings; 3 operations on the modifiers among 5; receipts for messages with identifiers of 1..2 arbitrary characters, subjects of one character of each class, texts of 1..2 arbitrary bytes after fillers, one or two addresses, 0..2 products', assumptions=[A_PLAT, A_CS])

PROPS['C34'] = dict(jobs=[
    J('h_conv', variants=grid(**{'from': [0, 1, 2, 3], 'to': [0, 1, 2, 3, 4], 'way': [0, 2], 'strict': [0, 1], 'n': [2]}) + grid(**{'from': [5], 'to': [0, 2, 5], 'way': [3, 4], 'strict': [0, 1], 'n': [2]}) + grid(**{'from': [0, 3], 'to': [0, 1], 'way': [1], 'late': [0, 1], 'strict': [0, 1], 'n': [2]}), P={'n': 3}),
    J('h_conv', variants=grid(**{'from': [0], 'to': [0, 1, 3, 4], 'way': [1, 2], 'pre': [14, 15, 16, 31], 'fill': [0, 1, 3], 'strict': [0, 1], 'n': [2], 'late': [1], 'zero': [1]}), VARIANTS=grid(**{'from': [0, 3], 'to': [0, 1, 3], 'way': [0, 1, 2, 4], 'pre': [13, 14, 15, 16, 17, 30, 31, 32], 'fill': [0, 1, 2, 3], 'strict': [0, 1], 'n': [3], 'late': [0, 1], 'zero': [1]}), reach=[]),
    J('h_conv', variants=grid(**{'from': [0], 'to': [0, 1, 4], 'way': [0, 1, 2], 'set': [2], 'sub': [0, 1], 'strict': [0, 1], 'twice': [1], 'n': [2], 'post': [0, 20]}) + grid(**{'from': [0], 'to': [0, 1, 4], 'way': [1, 2], 'set': [1], 'strict': [0, 1], 'n': [3]}), P={'n': 4}),
    J('h_conv_jp', variants=grid(n=[1], way=[0, 1, 2], pre=[0, 11, 12, 13, 14, 15]), P={'n': 2}),
    J('h_conv_valid', variants=grid(**{'from': [0, 1, 2, 3], 'n': [1, 2]}), P={'n': 3}),
    J('h_idna', variants=grid(n=[1]) + grid(n=[1], ascii=[1]) + grid(n=[2, 3, 4], ascii=[0, 2, 5, 9], pick=[1]), VARIANTS=grid(n=[1]) + grid(n=[1], lo=[2048], hi=[65535]) + grid(n=[2], ascii=[1, 2]) + grid(n=[2, 3, 4, 5], ascii=[0, 2, 5, 9], pick=[1])),
    J('h_idna_bad', variants=grid(n=[1], pre=[0, 2, 3], any=[0, 1]) + grid(n=[2, 3, 4], pre=[0, 3], any=[2]) + grid(n=[3], plain=[1], any=[0]), VARIANTS=grid(n=[1, 2], pre=[0, 2, 3], any=[0, 1]) + grid(n=[2, 3, 4, 5], pre=[0, 3], any=[2]) + grid(n=[3], plain=[1], any=[0, 1])),
], bounds='texts of 2..4 arbitrary bytes (or UTF-8 characters) after fillers that put them on the boundary of the 16-byte buffer, in every partition into pieces of 1..3 bytes, between UTF-8, US-ASCII, ISO-8859-1, UTF-16BE and ISO-2022-JP (to it: ASCII and hiragana); domain labels of one character of any value below U+0800 (thorough: U+10000) or up to 4 characters out of 7 representative ones; undecodable labels of up to 5 characters', assumptions=[A_PLAT, 'the converters of ICU are replaced by a model of five charsets (stubs/icu.sym.cpp); every path is replayed against the real ICU'])

PROPS['C42'] = dict(jobs=[
    J('h_lists', variants=grid(kind=R(6), init=[0, 2], ops=[2]) + grid(kind=R(6), init=[1], ops=[3], op0=R(11)), VARIANTS=grid(kind=R(6), init=[0, 1, 2, 3], ops=[3], op0=R(11))),
    J('h_lists_conv', P={'n': 4}),
    J('h_equal', variants=grid(kind=R(10), n=[1, 2]), P={'n': 3}),
], bounds='lists of up to 5 elements of each of the 6 kinds, sequences of up to 3 operations among 11 with every position; values with parts of 1..2 characters in each of which case and bytes above 127 vary; lists of 3 addresses with groups of 0..2 mailboxes', assumptions=[A_PLAT, A_CS])

PROPS['C35'] = dict(jobs=[
    J('h_fields_rt', variants=grid(kind=[0, 1, 3, 4, 7], n=[1, 2], mll=[76, 0]) + grid(kind=[2], n=[1, 2], wrapid=[0, 1], mll=[76, 20]) + grid(kind=[0, 2, 3, 7], n=[1], pre=[30, 70]) + grid(kind=[5], n=[1], mask=[1, 10, 20, 40], forms=[1, 3], mll=[76]) + grid(kind=[5], n=[1], mask=[63], forms=[1], mll=[76]), P={'n': 2}),
    J('h_fields_copy'),
    J('h_fields_parse', variants=grid(kind=[0, 1, 4], pfx=R(5), after=[0, 1, 2], used=[0, 1], n=[2]) + grid(kind=[2, 3, 5, 7], pfx=R(8), after=[0, 1, 2], used=[0, 1], n=[2]) + grid(kind=[0, 1, 2, 3, 4, 5, 7], set=[0], n=[1]), P={'n': 3}),
    J('h_fields_foreign', variants=grid(kind=[0, 2, 7], n=[1, 2]) + grid(kind=[3], k=[0, 1, 2], n=[1]) + grid(kind=[5], sym=[1, 2], mask=[63, 3, 10, 48, 36], x=[0, 1])),
    J('h_importance', variants=grid(kind=[0]) + grid(kind=[1], set=[0, 1], n=[2, 3])),
], bounds='tokens of 1..2 arbitrary characters (alone or after 30 or 70 others), 0..2 identifiers or protocols in a list, 5 line lengths; any text of up to 2 characters after 5 to 8 beginnings, between 3 surroundings, into a new or a used object', assumptions=[A_PLAT, A_CS])

PROPS['C41'] = dict(jobs=[
    J('h_parts', variants=grid(ops=[1, 2], parsed=[0, 2], msg=[0, 1]) + grid(ops=[3], fixed=[1], op0=[5, 8, 9, 10], parsed=[2], leaves=[2]), VARIANTS=grid(ops=[3], parsed=[0, 2], leaves=[2]) + grid(ops=[3], fixed=[1], op0=R(11), parsed=[2])),
], bounds='histories of 1 to 3 operations (11 kinds) on 2 containers and 2 or 3 parts, built or parsed', assumptions=[A_PLAT])
