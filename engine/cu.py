"""Makes CUDA source plain C++ for the device model: kernel launches become calls, dynamic shared memory a pointer."""
import re
def match(s, i, a, b):
    d = 0
    while i < len(s):
        if s[i] == a: d += 1
        elif s[i] == b:
            d -= 1
            if not d: return i
        i += 1
    raise ValueError('unbalanced')
def convert(path):
    s = open(path).read()
    s = re.sub(r'extern\s+__shared__\s+((?:\w|::|\s)+?)\s*(\w+)\s*\[\s*\]\s*;', r'\1* \2 = static_cast<\1*>(sym_cuda_shared());', s)
    out = ''; i = 0
    for m in re.finditer(r'<<<', s):
        if m.start() < i: continue
        e = s.index('>>>', m.end())
        # the kernel's name, with template arguments if it has any
        k = m.start()
        while s[k - 1].isspace(): k -= 1
        q = k
        if s[q - 1] == '>':
            d = 0
            while True:
                q -= 1
                d += (s[q] == '>') - (s[q] == '<')
                if not d: break
            while s[q - 1].isspace(): q -= 1
        while re.match(r'[\w:]', s[q - 1]): q -= 1
        name = s[q:k]; conf = s[m.end():e]
        out += s[i:q] + 'SYM_LAUNCH((%s), %s)' % (name, conf) + '\n' * 0
        i = e + 3
    return '#define SYM_DEVICE_CODE 1\n#line 1 "%s"\n' % path + out + s[i:]
if __name__ == '__main__':
    import sys
    print(convert(sys.argv[1]))
