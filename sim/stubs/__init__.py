"""Stand-ins for the CPACS libraries TiXI (XML access) and TiGL (geometry), which are not part of the
repository.  Files are read and written through the file seams; every call may be made to fail; every
handle is accounted for until it is closed explicitly."""
import sys
import types
import xml.etree.ElementTree as ET

from .. import seams

OPEN = []            # handles opened and not closed: [kind, path]


def handles():
    return [f'{k} {p}' for k, p in OPEN]


class Tixi3Exception(Exception):
    def __init__(self, msg='', code=1):
        super().__init__(msg)
        self.code = code


class Tigl3Exception(Exception):
    pass


def _tail(path):
    """The last two elements of a path, without numbers."""
    return '/'.join([p.partition('[')[0] for p in ''.join(path.split()).strip('/').split('/')][-2:])


def _call(name, exc, path=''):
    rt = seams.RT
    if rt is None:
        return
    rt.n_cpacs += 1
    rel = _tail(path)
    rt.libs.append((name, rel))
    d = rt._inject('cpacs', name, rel, rt.cur_node())
    if d is not None:
        raise exc(f'injected failure of {name}')


def _steps(path):
    """'/a/b[2]/c' -> [('a', 1), ('b', 2), ('c', 1)]; white space is ignored, as in XPath."""
    out = []
    for p in ''.join(path.split()).strip('/').split('/'):
        i = 1
        if p.endswith(']'):
            p, n = p[:-1].split('[')
            i = int(n)
        out.append((p, i))
    return out


class Tixi3:
    def __init__(self):
        self._root = None
        self._key = None

    # -- documents
    def open(self, path, recursive=False):
        _call('open', Tixi3Exception)
        try:
            with open(path, 'rb') as fp:
                data = fp.read()
            self._root = ET.fromstring(data)
        except (OSError, ET.ParseError) as e:
            raise Tixi3Exception(f'cannot open {path}: {e}') from None
        self._key = ['tixi', path]
        OPEN.append(self._key)

    openDocument = open

    def saveDocument(self, path):
        _call('saveDocument', Tixi3Exception)
        self._need()
        data = ET.tostring(self._root, encoding='utf-8', xml_declaration=True) + b'\n'
        try:
            with open(path, 'wb', buffering=1024) as fp:
                for i in range(0, len(data), 700):
                    fp.write(data[i:i + 700])
        except OSError as e:
            raise Tixi3Exception(f'cannot save {path}: {e}') from None

    saveCompleteDocument = saveDocument

    def exportDocumentAsString(self):
        self._need()
        return ET.tostring(self._root, encoding='unicode')

    def close(self):
        for i, k in enumerate(OPEN):
            if k is self._key:
                del OPEN[i]
                break
        self._key = self._root = None

    closeDocument = close

    def _need(self):
        if self._root is None:
            raise Tixi3Exception('no document')

    def checkDocumentHandle(self):
        return self._root is not None

    # -- access
    def _find(self, path):
        self._need()
        st = _steps(path)
        if not st or st[0][0] != self._root.tag:
            return None
        e = self._root
        for tag, i in st[1:]:
            c = [x for x in e if x.tag == tag]
            if len(c) < i:
                return None
            e = c[i - 1]
        return e

    def _get(self, path, name):
        _call(name, Tixi3Exception, path)
        e = self._find(path)
        if e is None:
            raise Tixi3Exception(f'{name}: {path} not found')
        return e

    def checkElement(self, path):
        _call('checkElement', Tixi3Exception, path)
        return self._find(path) is not None

    def checkAttribute(self, path, name):
        e = self._find(path)
        return e is not None and name in e.attrib

    def getNumberOfChilds(self, path):
        return len(self._get(path, 'getNumberOfChilds'))

    def getNamedChildrenCount(self, path, name):
        return len([x for x in self._get(path, 'getNamedChildrenCount') if x.tag == name])

    def xPathEvaluateNodeNumber(self, path):
        _call('xPathEvaluateNodeNumber', Tixi3Exception, path)
        st = path.rstrip('/').rsplit('/', 1)
        e = self._find(st[0])
        n = 0 if e is None else len([x for x in e if x.tag == st[1].strip()])
        if n == 0:
            raise Tixi3Exception(f'no node for {path}')
        return n

    def getTextAttribute(self, path, name):
        e = self._get(path, 'getTextAttribute')
        if name not in e.attrib:
            raise Tixi3Exception(f'{path} has no attribute {name}')
        return e.attrib[name]

    def getTextElement(self, path):
        return self._get(path, 'getTextElement').text or ''

    def getDoubleElement(self, path):
        e = self._get(path, 'getDoubleElement')
        try:
            return float(e.text)
        except (TypeError, ValueError):
            raise Tixi3Exception(f'{path} is not a number') from None

    def getIntegerElement(self, path):
        return int(self.getDoubleElement(path))

    def getVectorSize(self, path):
        e = self._get(path, 'getVectorSize')
        return len([x for x in (e.text or '').split(';') if x.strip()])

    def getFloatVector(self, path, n):
        e = self._get(path, 'getFloatVector')
        return tuple([float(x) for x in (e.text or '').split(';') if x.strip()][:n])

    def uIDCheckExists(self, uid):
        return any(e.attrib.get('uID') == uid for e in self._root.iter())

    def uIDGetXPath(self, uid):
        _call('uIDGetXPath', Tixi3Exception)
        self._need()

        def walk(e, path):
            if e.attrib.get('uID') == uid:
                return path
            seen = {}
            for c in e:
                seen[c.tag] = seen.get(c.tag, 0) + 1
                p = walk(c, f'{path}/{c.tag}[{seen[c.tag]}]')
                if p:
                    return p
            return None
        p = walk(self._root, '/' + self._root.tag)
        if p is None:
            raise Tixi3Exception(f'no uID {uid}')
        return p

    # -- changes
    def addFloatVector(self, parent, name, vector, n, format='%g'):
        e = self._get(parent, 'addFloatVector')
        c = ET.SubElement(e, name)
        c.attrib['mapType'] = 'vector'
        c.text = ';'.join(format % x for x in list(vector)[:n])

    def updateFloatVector(self, path, vector, n, format='%g'):
        e = self._get(path, 'updateFloatVector')
        e.text = ';'.join(format % x for x in list(vector)[:n])

    def removeElement(self, path):
        e = self._get(path, 'removeElement')
        self._find(path.rstrip('/').rsplit('/', 1)[0]).remove(e)

    def createElement(self, parent, name):
        ET.SubElement(self._get(parent, 'createElement'), name)

    def addTextElement(self, parent, name, text):
        ET.SubElement(self._get(parent, 'addTextElement'), name).text = text

    def updateTextElement(self, path, text):
        self._get(path, 'updateTextElement').text = text


class Tigl3:
    """Geometry of the simulated CPACS files: corner points are stored with each segment."""

    def __init__(self):
        self._root = None
        self._key = None

    def open(self, tixi, uid=''):
        _call('tigl.open', Tigl3Exception)
        if tixi._root is None:
            raise Tigl3Exception('no document')
        self._root = tixi._root
        self._key = ['tigl', tixi._key[1]]
        OPEN.append(self._key)

    def close(self):
        for i, k in enumerate(OPEN):
            if k is self._key:
                del OPEN[i]
                break
        self._key = self._root = None

    def _wing(self, i, name):
        _call(name, Tigl3Exception)
        if self._root is None:
            raise Tigl3Exception('closed')
        w = self._root.findall('vehicles/aircraft/model/wings/wing')
        if not 1 <= i <= len(w):
            raise Tigl3Exception(f'no wing {i}')
        return w[i - 1]

    def _seg(self, iw, i, name):
        s = self._wing(iw, name).findall('segments/segment')
        if not 1 <= i <= len(s):
            raise Tigl3Exception(f'no segment {i}')
        return s[i - 1]

    def wingGetSymmetry(self, i):
        return int(self._wing(i, 'wingGetSymmetry').attrib.get('simSymmetry', 0))

    def _point(self, iw, i, eta, xsi, dz, name):
        s = self._seg(iw, i, name)
        p = [[float(x) for x in q.split(',')] for q in s.attrib['simPoints'].split(';')]
        a, b, c, d = p
        out = [(1 - eta) * (1 - xsi) * a[k] + eta * (1 - xsi) * b[k] + eta * xsi * c[k] + (1 - eta) * xsi * d[k] for k in range(3)]
        out[2] += dz
        return tuple(out)

    def wingGetLowerPoint(self, iw, i, eta, xsi):
        return self._point(iw, i, eta, xsi, -0.0625, 'wingGetLowerPoint')

    def wingGetUpperPoint(self, iw, i, eta, xsi):
        return self._point(iw, i, eta, xsi, 0.0625, 'wingGetUpperPoint')

    def wingGetComponentSegmentCount(self, i):
        return len(self._wing(i, 'wingGetComponentSegmentCount').findall('componentSegments/componentSegment'))

    def wingGetComponentSegmentUID(self, i, k):
        return self._wing(i, 'wingGetComponentSegmentUID').findall('componentSegments/componentSegment')[k - 1].attrib['uID']

    def wingComponentSegmentPointGetSegmentEtaXsi(self, uid, eta, xsi):
        _call('wingComponentSegmentPointGetSegmentEtaXsi', Tigl3Exception)
        for w in self._root.findall('vehicles/aircraft/model/wings/wing'):
            for c in w.findall('componentSegments/componentSegment'):
                if c.attrib['uID'] == uid:
                    return w.attrib['uID'], c.attrib['simSegment'], eta, xsi
        raise Tigl3Exception(f'no component segment {uid}')

    def wingGetInnerSectionAndElementIndex(self, iw, i):
        self._seg(iw, i, 'wingGetInnerSectionAndElementIndex')
        return i, 1

    def wingGetOuterSectionAndElementIndex(self, iw, i):
        self._seg(iw, i, 'wingGetOuterSectionAndElementIndex')
        return i, 2

    def wingGetProfileName(self, iw, sec, elem):
        return self._seg(iw, sec, 'wingGetProfileName').attrib['simFoil']


def install():
    for lib, names in (('tixi3', {'Tixi3': Tixi3, 'Tixi3Exception': Tixi3Exception}), ('tigl3', {'Tigl3': Tigl3, 'Tigl3Exception': Tigl3Exception})):
        pkg = types.ModuleType(lib)
        pkg.__path__ = []
        mod = types.ModuleType(f'{lib}.{lib}wrapper')
        for k, v in names.items():
            setattr(mod, k, v)
        setattr(pkg, f'{lib}wrapper', mod)
        sys.modules[lib] = pkg
        sys.modules[f'{lib}.{lib}wrapper'] = mod
