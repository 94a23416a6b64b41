"""Mechanical, behaviour-preserving rewrites of /repo sources that make them
digestible for cbmc or observable at preemption points.  Applied afresh on
every run to the current text."""
import re


def div10(text, src):
    """Division of 64-bit values by ten -> a function that gives the quotient by its definition."""
    text = re.sub(r"\b(\w+)\s*/=\s*10\s*;", r"\1 = vh_div10(\1);", text)
    text = re.sub(r"\b(\w+)\s*/\s*10\b", r"vh_div10(\1)", text)
    return re.sub(r"\b(\w+)\s*%\s*10\b", r"vh_mod10(\1)", text)


def plain(text, src):
    """No rewriting: a copy outside its directory, so that the model headers are found first."""
    return text


def asm_crc(text, src):
    """x86 crc32 instructions in extended asm -> calls of a bit-level model (vh_crc32_insn)."""
    def split_top(s, sep):
        parts, depth, cur, inq = [], 0, '', False
        for i, c in enumerate(s):
            if c == '"' and (i == 0 or s[i - 1] != '\\'):
                inq = not inq
            if not inq:
                if c in '([':
                    depth += 1
                elif c in ')]':
                    depth -= 1
                elif c == sep and depth == 0:
                    parts.append(cur)
                    cur = ''
                    continue
            cur += c
        parts.append(cur)
        return parts

    out, i = '', 0
    for m in re.finditer(r'\b(?:__asm__|__asm|asm)\b\s*(?:__volatile__|volatile)?\s*\(', text):
        if m.start() < i:
            continue
        depth, j, inq = 1, m.end(), False
        while depth:
            c = text[j]
            if c == '"' and text[j - 1] != '\\':
                inq = not inq
            if not inq:
                depth += (c == '(') - (c == ')')
            j += 1
        body = text[m.end():j - 1]
        secs = split_top(body, ':')
        tmpl = ''.join(re.findall(r'"((?:[^"\\]|\\.)*)"', secs[0]))
        ops = []
        for s in secs[1:3]:
            for o in split_top(s, ','):
                mm = re.match(r'\s*(?:\[(\w+)\])?\s*"([^"]*)"\s*\((.*)\)\s*$', o, re.S)
                if mm:
                    ops.append((mm.group(1), mm.group(2), mm.group(3)))
        mi = re.search(r'crc32([bwlq])\s+%(\w?)(?:\[(\w+)\]|(\d))\s*,\s*%(\w?)(?:\[(\w+)\]|(\d))', tmpl)
        if mi:
            def op(name, num):
                return next(o for o in ops if o[0] == name)[2] if name else ops[int(num)][2]
            width = {'b': 8, 'w': 16, 'l': 32, 'q': 64}[mi.group(1)]
            srcv, dst = op(mi.group(3), mi.group(4)), op(mi.group(6), mi.group(7))
            rep = '(%s) = vh_crc32_insn((%s), (%s), %d)' % (dst, dst, srcv, width)
        else:
            rep = ';'.join('(%s) = vh_asm_any()' % o[2] for o in ops if o[1].startswith(('=', '+'))) or '(void) 0'
        out += text[i:m.start()] + rep
        i = j
    return out + text[i:]


def preempt(text, src):
    """VH_YIELD() before every statement of every function body that touches the queue."""
    out = []
    depth = 0
    lines = text.split('\n')
    infn = False
    hdr = ''
    prev = ''
    for ln in lines:
        st = ln.strip()
        if depth == 0 and st == '{':
            infn = bool(re.search(r'\b\w*(insert|remove)\s*\(', hdr))
        opens, closes = ln.count('{'), ln.count('}')
        # a statement boundary: the previous non-blank line ended in ; { or }, outside parentheses
        if infn and depth >= 1 and st and not st.startswith(('}', '#', 'case', 'default', 'else', '/*', '*', '//')) and re.search(r'[;{}]$', prev) and not re.match(r'\w+:$', st):
            out.append('VH_YIELD();')
        out.append(ln)
        depth += opens - closes
        if depth == 0:
            if st.endswith(';') or st == '}' or st.startswith('#'):
                hdr = ''
            else:
                hdr += ' ' + st
            if closes:
                infn = False
        if st:
            prev = st
    return '\n'.join(out)


def tables(text, src):
    """NAME[i][j] reads of constant two-dimensional tables -> vh_tab(i, j); the table itself stays and is
    checked entry by entry against vh_tab by a query of its own."""
    names = set(re.findall(r'\bstatic\s+const\s+\w+\s+(\w+)\s*\[[^\]]*\]\s*\[[^\]]*\]\s*=', text))
    for n in names:
        out, i = '', 0
        decl = re.search(r'\bstatic\s+const\s+\w+\s+' + n + r'\s*\[[^\]]*\]\s*\[[^\]]*\]\s*=', text)
        for m in re.finditer(r'\b' + n + r'\s*\[', text):
            if m.start() < i or decl.start() <= m.start() < decl.end():
                continue
            parts, j = [], m.end() - 1
            for _ in (0, 1):
                while j < len(text) and text[j].isspace():
                    j += 1
                if j >= len(text) or text[j] != '[':
                    parts = []
                    break
                d, k = 1, j + 1
                while d:
                    d += (text[k] == '[') - (text[k] == ']')
                    k += 1
                parts.append(text[j + 1:k - 1])
                j = k
            if len(parts) == 2:
                out += text[i:m.start()] + 'vh_tab((%s), (%s))' % tuple(parts)
                i = j
        text = out + text[i:]
    return text


def scale(text, src):
    """Arrays dimensioned for the whole 65536-type space are cut to VH_SCALE elements on the symbolic side only
    (natively the original dimension stays, so a counterexample caused by the cut does not replay)."""
    text = re.sub(r'^(#define\s+MAX_RRTYPES_MAPPABLE\s+)(\S.*)$', r'\1VH_SCALED_TYPES(\2)', text, flags=re.M)
    return re.sub(r'^(\s+(?:static\s+)?(?:uint8_t|uint16_t|uint32_t|bool|char)\s+\w+)\[([^\]]*\b(?:\d{4,}|256 \*)[^\]]*)\](\s*;)', r'\1[VH_SCALED(\2)]\3', text, flags=re.M)
