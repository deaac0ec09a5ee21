"""A stand-in for OpenGL, the display, the sprite files and the video encoder, which records what is drawn where.

Fixed-function OpenGL as render.py uses it: matrix stacks, immediate-mode primitives, textures, framebuffers.  Every
vertex ends up as a position in window pixels (origin top left); every texture coordinate as a pixel of a sprite file (the
files are replaced by images whose pixels say which file and which pixel they are), and may be a symbolic number.
"""
import contextlib
import functools
import math
import os
import re

import numpy as np
import OpenGL.GL as GL
from PIL import Image

from .dse import SymReal, SymInt
from .tools import patched


class Unsupported(Exception):
    """the emulator does not know this call"""


# sprite sheets as they come with the game: file name -> size in pixels
SHEETS = {
    'hr-transport-belt.png': (2048, 2560),
    'hr-underground-belt-structure.png': (768, 768),
    'hr-splitter-east.png': (720, 336), 'hr-splitter-east-top_patch.png': (720, 416),
    'hr-splitter-west.png': (720, 344), 'hr-splitter-west-top_patch.png': (720, 384),
    'hr-splitter-north.png': (1280, 280), 'hr-splitter-south.png': (1312, 256),
    'hr-inserter-platform.png': (420, 79), 'hr-long-handed-inserter-platform.png': (420, 79),
    'hr-inserter-hand-base.png': (32, 136), 'hr-long-handed-inserter-hand-base.png': (32, 136),
    'hr-inserter-hand-open.png': (72, 164), 'hr-long-handed-inserter-hand-open.png': (72, 164),
    'hr-inserter-hand-closed.png': (72, 164), 'hr-long-handed-inserter-hand-closed.png': (72, 164),
    'hr-assembling-machine-1.png': (1712, 904),
}
FILES = sorted(SHEETS)


@functools.lru_cache(None)
def sheet(name):
    w, h = SHEETS[name]
    x = np.arange(w, dtype=np.uint32)[None, :]
    y = np.arange(h, dtype=np.uint32)[:, None]
    v = (np.uint32(FILES.index(name) + 1) << 23) | (x << 12) | y
    return Image.fromarray(v.astype('<u4').view(np.uint8).reshape(h, w, 4), 'RGBA')


def open_image(fp, *a, **kw):
    name = os.path.basename(os.fspath(fp))
    if name not in SHEETS:
        raise FileNotFoundError(2, 'no such sprite file', str(fp))
    return sheet(name).copy()


_affine = {}


def texture_map(w, h, data):
    """(file, ax, bx, ay, by): texel (i, j) shows pixel (ax*i + bx, ay*j + by) of the file; None if it is not a sprite file"""
    raw = bytes(data) if not isinstance(data, np.ndarray) else np.ascontiguousarray(data).tobytes()
    key = (w, h, hash(raw))
    if key not in _affine:
        _affine[key] = None
        if len(raw) == w * h * 4:
            v = np.frombuffer(raw, '<u4').reshape(h, w)
            f, x, y = (v >> 23).astype(int), ((v >> 12) & 2047).astype(int), (v & 4095).astype(int)
            if (f == f[0, 0]).all() and 0 < f[0, 0] <= len(FILES):
                ax = x[0, 1] - x[0, 0] if w > 1 else 1
                ay = y[1, 0] - y[0, 0] if h > 1 else 1
                bx, by = x[0, 0], y[0, 0]
                if (x == ax * np.arange(w)[None, :] + bx).all() and (y == ay * np.arange(h)[:, None] + by).all():
                    _affine[key] = (FILES[f[0, 0] - 1], int(ax), int(bx), int(ay), int(by))
    return _affine[key]


class Texture:
    def __init__(self):
        self.w = self.h = 0
        self.map = None
        self.text = None
        self.image = None      # a Picture, when it is the attachment of a framebuffer


class Picture:
    """what has been drawn into a colour buffer"""

    def __init__(self, size=None):
        self.size = size
        self.draws = None     # None: undefined

    def copy(self):
        p = Picture(self.size)
        p.draws = None if self.draws is None else list(self.draws)
        return p


class Prim:
    """a quad: corners [(x, y, u, v)] with u, v in pixels of the file (or of the texture); a line: two ends"""
    __slots__ = ('kind', 'pts', 'colour', 'file', 'text', 'uv')

    def __init__(self, kind, pts, uv, colour, file, text):
        self.kind, self.pts, self.uv, self.colour, self.file, self.text = kind, pts, uv, colour, file, text

    def box(self):
        xs, ys = [p[0] for p in self.pts], [p[1] for p in self.pts]
        return min(xs), min(ys), max(xs), max(ys)


class GLState:
    def __init__(self):
        self.mode = GL.GL_MODELVIEW
        self.stack = {GL.GL_MODELVIEW: [np.eye(4)], GL.GL_PROJECTION: [np.eye(4)], GL.GL_TEXTURE: [np.eye(4)]}
        self.colour = (1.0, 1.0, 1.0)
        self.texcoord = (0.0, 0.0)
        self.enabled = set()
        self.textures = {}
        self.bound = 0
        self.fbos = {0: Picture()}
        self.fbo_tex = {}
        self.rbo = {}
        self.draw_fb = self.read_fb = 0
        self.rb = 0
        self.next = 1
        self.viewport = None
        self.begin = None
        self.verts = []
        self.tokens = []
        self.line_width = 1
        self.attrib = []

    # --- helpers
    def new(self):
        self.next += 1
        return self.next

    @property
    def m(self):
        return self.stack[self.mode][-1]

    @m.setter
    def m(self, v):
        self.stack[self.mode][-1] = v

    def mul(self, m):
        self.m = self.m @ m

    def picture(self, fb):
        if fb in self.fbo_tex:
            t = self.textures[self.fbo_tex[fb]]
            if t.image is None:
                t.image = Picture()
            t.image.size = (t.w, t.h)
            return t.image
        return self.fbos[fb]

    def vertex(self, x, y):
        if self.begin is None:
            return
        p = self.stack[GL.GL_PROJECTION][-1] @ self.stack[GL.GL_MODELVIEW][-1] @ np.array([_f(x), _f(y), 0.0, 1.0])
        p = p / p[3]
        vx, vy, vw, vh = self.viewport
        wx = vx + (p[0] + 1) / 2 * vw
        wy = vy + (p[1] + 1) / 2 * vh
        self.verts.append(((wx, vh + 2 * vy - wy), self.texcoord, self.colour))

    def end(self):
        v, mode = self.verts, self.begin
        self.verts, self.begin = [], None
        if mode is None:
            raise RuntimeError('glEnd without glBegin')
        pic = self.picture(self.draw_fb)
        if pic.draws is None:
            pic.draws = []
        tex = self.textures.get(self.bound) if GL.GL_TEXTURE_2D in self.enabled else None
        if mode in (GL.GL_LINES, GL.GL_LINE_STRIP, GL.GL_LINE_LOOP):
            if mode == GL.GL_LINES:
                pairs = [(v[i], v[i + 1]) for i in range(0, len(v) - 1, 2)]
            else:
                pairs = list(zip(v, v[1:])) + ([(v[-1], v[0])] if mode == GL.GL_LINE_LOOP and len(v) > 2 else [])
            for a, b in pairs:
                pic.draws.append(Prim('line', [a[0], b[0]], None, b[2], tex and tex.map and tex.map[0], tex and (tex.text or 'textured')))
            return
        if mode in (GL.GL_QUADS,):
            quads = [v[i:i + 4] for i in range(0, len(v) - 3, 4)]
        elif mode in (GL.GL_POLYGON, GL.GL_TRIANGLE_FAN) and len(v) == 4:
            quads = [v]
        elif mode in (GL.GL_TRIANGLE_STRIP, GL.GL_QUAD_STRIP) and len(v) == 4:
            quads = [[v[0], v[1], v[3], v[2]]]
        elif mode == GL.GL_TRIANGLES and len(v) % 6 == 0:
            quads = []
            for i in range(0, len(v), 6):
                c = []
                for w in v[i:i + 6]:
                    if all(abs(w[0][0] - o[0][0]) + abs(w[0][1] - o[0][1]) > 1e-9 for o in c):
                        c.append(w)
                if len(c) != 4:
                    raise Unsupported('triangles that do not make up rectangles')
                quads.append(c)
        elif not v:
            return
        else:
            raise Unsupported(f'primitive {mode} with {len(v)} corners')
        for q in quads:
            uv = None
            if tex is not None:
                uv = []
                for _, (s, t), _ in q:
                    s, t = s * tex.w, t * tex.h
                    if tex.map:
                        _, ax, bx, ay, by = tex.map
                        # texel i covers [i, i+1): pixel edge
                        s = s * ax + (bx if ax > 0 else bx + 1)
                        t = t * ay + (by if ay > 0 else by + 1)
                    uv.append((s, t))
            pic.draws.append(Prim('quad', [w[0] for w in q], uv, q[-1][2], tex and tex.map and tex.map[0], tex and tex.text))


def _f(x):
    return float(x)


def _n(x):
    return x if isinstance(x, (SymReal, SymInt, int, float)) or type(x) in (SymReal, SymInt) else float(x)


def _seq(n, v):
    if v is None:
        return []
    try:
        return [int(i) for i in v][:n]
    except TypeError:
        return [int(v)]


class Emulator:
    """functions by OpenGL name; `names()` gives the patch for a module's namespace"""

    def __init__(self, texts=None):
        self.s = GLState()
        self.texts = texts if texts is not None else []
        self.shown = []

    def __getattr__(self, name):
        if name.startswith('glIs') or name in ('glGetError',):
            return lambda *a, **kw: 0
        if re.match(r'gl(Hint|BlendFunc|BlendFuncSeparate|BlendEquation|TexParameter.*|PixelStore.*|ClearColor|Finish|Flush|'
                    r'DrawBuffer|ReadBuffer|ShadeModel|DepthFunc|TexEnv.*|LineStipple|ClearDepth|PolygonMode|GenerateMipmap|'
                    r'ActiveTexture|Delete.*|DepthMask|AlphaFunc|PointSize|Error.*|CheckError)$', name):
            return lambda *a, **kw: None
        if name.startswith('gl'):
            def missing(*a, **kw):
                raise Unsupported(name)
            return missing
        raise AttributeError(name)

    # matrices
    def glMatrixMode(self, m):
        self.s.mode = m

    def glLoadIdentity(self):
        self.s.m = np.eye(4)

    def glLoadMatrixf(self, m):
        self.s.m = np.array(m, dtype=float).reshape(4, 4).T

    def glMultMatrixf(self, m):
        self.s.mul(np.array(m, dtype=float).reshape(4, 4).T)

    glLoadMatrixd, glMultMatrixd = glLoadMatrixf, glMultMatrixf

    def glPushMatrix(self):
        self.s.stack[self.s.mode].append(self.s.m.copy())

    def glPopMatrix(self):
        st = self.s.stack[self.s.mode]
        if len(st) > 1:
            st.pop()

    def glTranslatef(self, x, y, z):
        m = np.eye(4)
        m[:3, 3] = _f(x), _f(y), _f(z)
        self.s.mul(m)

    def glScalef(self, x, y, z):
        self.s.mul(np.diag([_f(x), _f(y), _f(z), 1.0]))

    def glRotatef(self, a, x, y, z):
        a = math.radians(_f(a)) * (1 if z >= 0 else -1)
        if x or y:
            raise Unsupported('rotation out of the plane')
        m = np.eye(4)
        m[:2, :2] = [[math.cos(a), -math.sin(a)], [math.sin(a), math.cos(a)]]
        self.s.mul(m)

    glTranslated, glScaled, glRotated = glTranslatef, glScalef, glRotatef

    def glOrtho(self, l, r, b, t, n, f):
        l, r, b, t = _f(l), _f(r), _f(b), _f(t)
        m = np.eye(4)
        m[0, 0], m[0, 3] = 2 / (r - l), -(r + l) / (r - l)
        m[1, 1], m[1, 3] = 2 / (t - b), -(t + b) / (t - b)
        self.s.mul(m)

    def gluOrtho2D(self, l, r, b, t):
        self.glOrtho(l, r, b, t, -1, 1)

    def glViewport(self, x, y, w, h):
        self.s.viewport = (int(x), int(y), int(w), int(h))

    # state
    def glEnable(self, c):
        self.s.enabled.add(c)

    def glDisable(self, c):
        self.s.enabled.discard(c)

    def glPushAttrib(self, *a):
        self.s.attrib.append((set(self.s.enabled), self.s.colour, self.s.bound))

    def glPopAttrib(self):
        self.s.enabled, self.s.colour, self.s.bound = self.s.attrib.pop()

    def glLineWidth(self, w):
        self.s.line_width = w

    def glColor3f(self, r, g, b):
        self.s.colour = tuple(min(1.0, max(0.0, float(v))) for v in (r, g, b))

    glColor3d = glColor3f

    def glColor3fv(self, c):
        self.glColor3f(*list(c)[:3])

    glColor3dv = glColor3fv

    def glColor4f(self, r, g, b, a=1):
        self.glColor3f(r, g, b)

    glColor4d = glColor4f

    def glColor4fv(self, c):
        self.glColor3f(*list(c)[:3])

    glColor4dv = glColor4fv

    def glColor(self, *c):
        c = list(c[0]) if len(c) == 1 else c
        self.glColor3f(*c[:3])

    def glColor3ub(self, r, g, b):
        self.glColor3f(r / 255, g / 255, b / 255)

    def glGetIntegerv(self, what):
        if what == GL.GL_VIEWPORT:
            return np.array(self.s.viewport, np.int32)
        if what in (GL.GL_MAX_SAMPLES, GL.GL_MAX_TEXTURE_SIZE):
            return 16384 if what == GL.GL_MAX_TEXTURE_SIZE else 8
        if what in (GL.GL_FRAMEBUFFER_BINDING,):
            return self.s.draw_fb
        if what == GL.GL_TEXTURE_BINDING_2D:
            return self.s.bound
        raise Unsupported(f'glGetIntegerv {what}')

    def glGetFloatv(self, what):
        for k, v in ((GL.GL_MODELVIEW_MATRIX, GL.GL_MODELVIEW), (GL.GL_PROJECTION_MATRIX, GL.GL_PROJECTION)):
            if what == k:
                return self.s.stack[v][-1].T.copy()
        raise Unsupported(f'glGetFloatv {what}')

    glGetDoublev = glGetFloatv

    # primitives
    def glBegin(self, mode):
        self.s.begin = mode
        self.s.verts = []

    def glEnd(self):
        self.s.end()

    def glVertex2f(self, x, y):
        self.s.vertex(x, y)

    glVertex2d = glVertex2i = glVertex2f

    def glVertex3f(self, x, y, z):
        self.s.vertex(x, y)

    glVertex3d = glVertex3f

    def glVertex2fv(self, p):
        self.s.vertex(*p)

    glVertex2dv = glVertex2fv

    def glVertex(self, *p):
        p = list(p[0]) if len(p) == 1 else p
        self.s.vertex(*p[:2])

    def glTexCoord2f(self, u, v):
        self.s.texcoord = (_n(u), _n(v))

    glTexCoord2d = glTexCoord2i = glTexCoord2f

    def glTexCoord2fv(self, p):
        self.glTexCoord2f(*p)

    glTexCoord2dv = glTexCoord2fv

    def glTexCoord(self, *p):
        p = list(p[0]) if len(p) == 1 else p
        self.glTexCoord2f(*p[:2])

    def glRectf(self, x0, y0, x1, y1):
        self.glBegin(GL.GL_QUADS)
        for p in ((x0, y0), (x1, y0), (x1, y1), (x0, y1)):
            self.s.vertex(*p)
        self.glEnd()

    # textures
    def glGenTextures(self, n, *a):
        ids = [self.s.new() for _ in range(n)]
        for i in ids:
            self.s.textures[i] = Texture()
        return ids[0] if n == 1 else np.array(ids, np.uint32)

    def glBindTexture(self, target, t):
        t = int(t)
        if t and t not in self.s.textures:
            self.s.textures[t] = Texture()
        self.s.bound = t

    def glTexImage2D(self, target, level, internal, w, h, border, fmt, typ, data):
        if level != 0 or border != 0:
            return   # another mipmap level; borders are an error
        t = self.s.textures[self.s.bound]
        t.w, t.h = int(w), int(h)
        t.map = t.text = t.image = None
        if data is not None:
            t.map = texture_map(t.w, t.h, data) if fmt in (GL.GL_RGBA, GL.GL_BGRA) else None
            if t.map is None:
                t.text = self._text(t.w, t.h, data)

    def _text(self, w, h, data):
        raw = data.tobytes() if isinstance(data, np.ndarray) else bytes(data)
        if not w or not h or len(raw) % (w * h):
            return '?'
        a = np.frombuffer(raw, np.uint8).reshape(h, w, -1)
        for c in range(a.shape[2]):
            row = a[0, :, c]
            for text, px in self.texts:
                if len(px) == len(row) and len(set(px)) > 1 and (row == px).all():
                    return text
            for text, px in self.texts:
                if len(px) == len(row) and (row == px).all():
                    return text
        return '?'

    def glGetTexLevelParameteriv(self, target, level, what, *a):
        t = self.s.textures[self.s.bound]
        if level != 0:
            return 0
        return {GL.GL_TEXTURE_WIDTH: t.w, GL.GL_TEXTURE_HEIGHT: t.h}[what]

    def _pixels(self, pic, w, h, channels=3):
        self.s.tokens.append(pic.copy())
        token = len(self.s.tokens)
        a = np.zeros((h, w, channels), np.uint8)
        a[:, :, 0] = token & 255
        a[:, :, 1] = np.arange(h)[:, None] & 255   # row 0 is the bottom one
        a[:, :, 2] = ((token >> 8) << 4) | (np.arange(w)[None, :] & 15)
        return a

    def glGetTexImage(self, target, level, fmt, typ, *a):
        t = self.s.textures[self.s.bound]
        n = {GL.GL_RGB: 3, GL.GL_RGBA: 4}[fmt]
        out = self._pixels(t.image or Picture(), t.w, t.h, n)
        return out.tobytes()

    def glReadPixels(self, x, y, w, h, fmt, typ, *a):
        n = {GL.GL_RGB: 3, GL.GL_RGBA: 4}[fmt]
        return self._pixels(self.s.picture(self.s.read_fb), int(w), int(h), n).tobytes()

    # framebuffers
    def glGenRenderbuffers(self, n, *a):
        ids = [self.s.new() for _ in range(n)]
        return ids[0] if n == 1 else np.array(ids, np.uint32)

    def glBindRenderbuffer(self, target, r):
        self.s.rb = int(r)

    def glRenderbufferStorage(self, target, fmt, w, h):
        self.s.rbo[self.s.rb] = (int(w), int(h))

    def glRenderbufferStorageMultisample(self, target, n, fmt, w, h):
        self.s.rbo[self.s.rb] = (int(w), int(h))

    def glGenFramebuffers(self, n, *a):
        ids = [self.s.new() for _ in range(n)]
        for i in ids:
            self.s.fbos[i] = Picture()
        return ids[0] if n == 1 else np.array(ids, np.uint32)

    def glBindFramebuffer(self, target, fb):
        fb = int(fb)
        if fb not in self.s.fbos:
            self.s.fbos[fb] = Picture()
        if target in (GL.GL_FRAMEBUFFER, GL.GL_DRAW_FRAMEBUFFER):
            self.s.draw_fb = fb
        if target in (GL.GL_FRAMEBUFFER, GL.GL_READ_FRAMEBUFFER):
            self.s.read_fb = fb

    def glFramebufferRenderbuffer(self, target, att, rt, rb):
        self.s.fbos[self.s.draw_fb].size = self.s.rbo.get(int(rb))

    def glFramebufferTexture2D(self, target, att, tt, tex, level):
        self.s.fbo_tex[self.s.draw_fb] = int(tex)

    def glCheckFramebufferStatus(self, *a):
        return GL.GL_FRAMEBUFFER_COMPLETE

    def glClear(self, mask):
        if mask & GL.GL_COLOR_BUFFER_BIT:
            self.s.picture(self.s.draw_fb).draws = []

    def glBlitFramebuffer(self, x0, y0, x1, y1, X0, Y0, X1, Y1, mask, filt):
        src, dst = self.s.picture(self.s.read_fb), self.s.picture(self.s.draw_fb)
        vx, vy, w, h = self.s.viewport
        if [int(i) for i in (x0, y0, x1, y1, X0, Y0, X1, Y1)] != [0, 0, w, h] * 2:
            raise Unsupported('blit of a part of the picture')
        if mask & GL.GL_COLOR_BUFFER_BIT:
            dst.draws = None if src.draws is None else list(src.draws)
            dst.source = src


_names = {}


@contextlib.contextmanager
def installed(emu, *mods):
    """the emulator in place of OpenGL in these modules, sprite files in place of the game's"""
    saved = []
    cache = {}
    for m in mods + (GL,):
        if m not in _names:
            _names[m] = [n for n in dir(m) if re.match(r'glu?[A-Z]', n) and callable(getattr(m, n))]
        d = m.__dict__
        for n in _names[m]:
            if n not in cache:
                cache[n] = getattr(emu, n)
            saved.append((d, n, d[n]))
            d[n] = cache[n]
    try:
        with patched(Image, 'open', open_image):
            yield emu
    finally:
        for d, n, v in saved:
            d[n] = v


# --- pygame and ffmpeg --------------------------------------------------------------------------------------------------
class Surface:
    """rendered text: the first row of the red channel spells it"""

    def __init__(self, text, px, h):
        self.text, self.px, self.h = text, px, h

    def get_size(self):
        return len(self.px), self.h

    def get_width(self):
        return len(self.px)

    def get_height(self):
        return self.h


class Font:
    def __init__(self, emu):
        self.emu = emu

    def _px(self, text):
        return np.array([1 + (ord(c) % 250) for c in text for _ in range(2)], np.uint8)

    def size(self, text):
        return 2 * len(text), 4

    def get_height(self):
        return 4

    get_linesize = get_height

    def render(self, text, *a, **kw):
        px = self._px(text)
        self.emu.texts.append((text, px))
        return Surface(text, px, 4)


def array3d(s):
    a = np.zeros((len(s.px), s.h, 3), np.uint8)
    a[:, :, 0] = s.px[:, None]
    return a


class Stop(BaseException):
    """the script of events is over"""


class Window:
    """pygame's display, events and clock: `events` is called once per poll and returns a list of events"""

    def __init__(self, emu, events, limit=2000):
        self.emu, self.events, self.limit = emu, events, limit
        self.size = None
        self.frames = []       # what was shown at each flip
        self.polls = 0
        self.on_flip = None
        self.flags = 0
        self.title = None

    def patches(self, pygame):
        win, emu = self, self.emu

        def set_mode(size=(0, 0), flags=0, *a, **kw):
            win.size, win.flags = (int(size[0]), int(size[1])), flags
            if emu.s.viewport is None:
                emu.s.viewport = (0, 0) + win.size
            emu.s.fbos[0] = Picture(win.size)

        def poll(*a, **kw):
            win.polls += 1
            if win.polls > win.limit:
                raise Stop()
            return win.events()

        def flip(*a):
            pic = emu.s.picture(0).copy()
            pic.size = win.size
            pic.viewport = emu.s.viewport
            win.frames.append(pic)
            if win.on_flip:
                win.on_flip(pic)

        class Clock:
            def tick(self, *a):
                return 16

            tick_busy_loop = tick

            def get_fps(self):
                return 60.0

            def get_time(self):
                return 16
        nop = lambda *a, **kw: None
        for name, fn in (('init', nop), ('quit', nop), ('set_mode', set_mode), ('flip', flip), ('update', flip),
                         ('set_caption', nop), ('gl_set_attribute', nop), ('set_icon', nop)):
            yield pygame.display, name, fn
        yield pygame.display, 'get_surface', lambda: Surface('', np.zeros(win.size[0]), win.size[1])
        for name in ('init', 'quit'):
            yield pygame, name, nop
        yield pygame.font, 'init', nop
        yield pygame.font, 'quit', nop
        yield pygame.font, 'Font', lambda *a, **kw: Font(emu)
        yield pygame.font, 'SysFont', lambda *a, **kw: Font(emu)
        yield pygame.event, 'get', poll
        yield pygame.event, 'pump', nop
        yield pygame.time, 'Clock', Clock
        yield pygame.time, 'wait', nop
        yield pygame.time, 'delay', nop
        yield pygame.surfarray, 'array3d', array3d
        yield pygame.surfarray, 'pixels3d', array3d


class Video:
    """the encoder: remembers what was piped in and which file it was to write"""

    def __init__(self):
        self.files = []

    def input(self, name, **kw):
        return Stream(self, kw)


class Stream:
    def __init__(self, video, kw):
        self.video, self.kw = video, kw
        self.name, self.okw = None, {}
        self.data = []
        self.stdin = self

    def output(self, name, **kw):
        self.name, self.okw = name, kw
        return self

    def overwrite_output(self):
        return self

    def global_args(self, *a):
        return self

    def filter(self, *a, **kw):
        raise Unsupported('video filters')

    def run_async(self, **kw):
        self.video.files.append(self)
        if not kw.get('pipe_stdin'):
            self.stdin = None
        return self

    def run(self, input=None, **kw):
        self.video.files.append(self)
        self.data.append(bytes(input))
        return b'', b''

    def write(self, b):
        self.data.append(bytes(b))
        return len(self.data[-1])

    def flush(self):
        pass

    def close(self):
        pass

    def wait(self, *a):
        return 0

    def communicate(self, input=None, *a):
        if input:
            self.data.append(bytes(input))
        return b'', b''

    poll = wait
    returncode = 0

    def frames(self, emu):
        """[(Picture, upright)] of the frames piped in"""
        if 's' in self.kw:
            w, h = map(int, str(self.kw['s']).split('x'))
        else:
            w, h = map(int, str(self.kw['video_size']).split('x'))
        raw = b''.join(self.data)
        n = 3
        if len(raw) % (w * h * n):
            raise Unsupported('frame size')
        a = np.frombuffer(raw, np.uint8).reshape(-1, h, w, n)
        out = []
        for f in a:
            token = int(f[0, 0, 0]) | (int(f[0, 0, 2]) >> 4) << 8
            if not 0 < token <= len(emu.s.tokens):
                out.append((None, False))
                continue
            want = emu._pixels(Picture(), w, h)
            emu.s.tokens.pop()
            want[:, :, 0] = f[0, 0, 0]
            want[:, :, 2] = ((token >> 8) << 4) | (np.arange(w)[None, :] & 15)
            out.append((emu.s.tokens[token - 1], bool((f == want[::-1]).all())))
        return out
