"""known_findings.txt: the fixed defects from /repo's fix commits (map of commit subject -> property)."""
import subprocess, re, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RULES = [('decode 9-byte', 'P01'), ('truncated fixed-size', 'P04'), ('array length limits', 'P04'), ('IPv6 validation', 'P05'), ('OutPoint equality', 'P02'),
         ('reject text that', 'P08'), ('not_regist', 'P03'), ('describing messages', 'P08'), ('message cut short', 'P03'),
         ('ECDSA verification crashed', 'P17'), ('reduce r modulo', 'P17'), ('public key range check', 'P17'), ('doubling a point', 'P21'),
         ('unreduced y', 'P21'), ('DER length', 'P18'), ('malformed or truncated DER', 'P18'), ('RFC 6979', 'P19'), ('low-S', 'P17'),
         ('randrange_from_seed', 'P20'), ('verify() raised', 'P17'), ('public keys that are empty', 'P12'), ('WIF key with', 'P11'),
         ('HD public keys were', 'P15'), ('HDWallet raised NameError', 'P15'), ('from_extended_key', 'P16'), ('random vcn', 'P15'),
         ('watch-only wallet', 'P14'), ('Address accepted uncompressed', 'P13'), ('interrupted saveTo', 'P14'), ('hex_to_bin', 'P28'), ('get_target', 'P28'),
         ('AES-256', 'P23'), ('PKCS7', 'P25'), ('block feeder', 'P25'), ('piecewise.get_address', 'P26'), ('split_private_key', 'P26'),
         ('banned peers', 'P27'), ('answering getaddr', 'P27'), ('MAX_ADDRESSES', 'P27'), ('comparing two connections', 'P27'), ('age of its last', 'P27'),
         ('FtIPAddress accepts', 'P05'), ('point_decompress refuses', 'P12'), ('Address accepted private keys', 'P13'), ('CFB mode', 'P24'), ('JSON path', 'P31')]
EXTRA = os.path.join(HERE, 'tools', 'findings_extra.txt')
out = ['# Genuine defects of nb-coin/new-bitcoin found by this work.',
       '# "fixed:" entries were repaired in /repo and suppress nothing.',
       '# "KNOWN-FINDING:" entries (property, instance, failing check) are reported and suppressed.']
for l in reversed(subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s'], text=True).splitlines()):
    c, s = l.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    p = [q for r, q in RULES if r in s]
    if not p:
        print('no property for:', s)
        continue
    out.append('fixed: property=%s %s %s' % (p[0], c, s[5:]))
if os.path.exists(EXTRA):
    out += open(EXTRA).read().splitlines()
open(os.path.join(HERE, 'known_findings.txt'), 'w').write('\n'.join(out) + '\n')
