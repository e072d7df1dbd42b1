"""P36: detection boxes and their scores (inference/yolo_eval.py)."""
import importlib.util
import json
import os
import sys
import types
from collections import defaultdict
from fractions import Fraction as Fr
import numpy as np
from vt import faketorch
from vt.core import rng_for, quiet, scratch, REPO

PROP = 'P36'
RULE = ('random and clustered boxes (integer, float, touching, nested, duplicate, outside of the image), scores, classes and annotations (category ids from 0, from 1 with gaps, '
        'in any order): decoding with its class-wise suppression, overlaps and average precision against definitions written out here with rational numbers; whole evaluations of '
        'datasets and directories with images of any aspect ratio on a stand-in for cv2 and a model which looks its detections up by the content of the image it is given; '
        'non-trivial when boxes were suppressed, or when the score lies strictly between 0 and 1')
BUDGET = {'quick': 60, 'thorough': 500}
ASSUMPTIONS = ['scores are distinct and overlaps not within 1e-6 of a threshold unless exactly on 0.5 (such cases are inconclusive)',
               'cv2, torch and the inference engine are replaced by stand-ins: images are arrays, the stand-in for resizing takes the nearest pixel',
               'annotations have no crowds; every image of a directory is listed in its annotation file']
MIN_EVENTS = {'boxes_decoded': 3000, 'boxes_suppressed': 500, 'scores_compared': 2000, 'evaluations': 150, 'letterboxes': 300, 'rectangles_judged': 200, 'curve_points': 100}


def cases(tier, seed):
    n = 700 if tier == 'quick' else 40000
    for i in range(n):
        yield ('post', seed, i)
        yield ('post', seed, i + n)
        yield ('ap', seed, i)
        yield ('ap', seed, i + n)
        if i % 2 == 0:
            yield ('data', seed, i)


_mod = {}


class FakeCv2(types.ModuleType):
    FONT_HERSHEY_SIMPLEX, BORDER_CONSTANT, INTER_LINEAR, INTER_AREA, INTER_NEAREST, LINE_AA = 0, 0, 1, 3, 0, 16
    BORDER_REPLICATE, COLOR_BGR2RGB, IMREAD_COLOR = 1, 4, 1

    def __init__(self):
        super().__init__('cv2')
        self.calls = []

    def imread(self, path, *a):
        try:
            with open(path, 'rb') as f:
                return np.load(f)
        except Exception:
            return None

    def resize(self, img, size, *a, **k):
        w, h = size
        self.calls.append(('resize', h, w))
        if h < 1 or w < 1:
            raise ValueError('resize to nothing')
        return img[np.arange(h) * img.shape[0] // h][:, np.arange(w) * img.shape[1] // w]

    def copyMakeBorder(self, img, top, bottom, left, right, kind, value=None, **k):
        self.calls.append(('border', top, bottom, left, right, value))
        out = np.empty((img.shape[0] + top + bottom, img.shape[1] + left + right, 3), img.dtype)
        out[:] = value
        out[top:top + img.shape[0], left:left + img.shape[1]] = img
        return out

    def rectangle(self, img, a, b, color, thickness=1, *r):
        self.calls.append(('rectangle', tuple(a), tuple(b), thickness))
        return img

    def line(self, img, *a, **k):
        return img

    putText = line

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise faketorch.Missing('the stand-in for cv2 has no ' + name)

    def getTextSize(self, text, *a):
        return (8 * len(text), 10), 3

    def imwrite(self, path, img):
        self.calls.append(('imwrite', path, img.shape))
        with open(path, 'wb') as f:
            np.save(f, img)
        return True


def module():
    if not _mod:
        sys.modules['torch'] = faketorch.module()
        for name, cls in (('infer', 'GraphInfer'), ('kernels', 'KernelRegistry')):
            m = types.ModuleType(name)
            setattr(m, cls, type(cls, (), {}))
            sys.modules[name] = m
        sys.modules['cv2'] = _mod['cv2'] = FakeCv2()
        spec = importlib.util.spec_from_file_location('vt_yolo_eval', os.path.join(REPO, 'inference', 'yolo_eval.py'))
        m = importlib.util.module_from_spec(spec)
        sys.modules['vt_yolo_eval'] = m
        path = list(sys.path)
        spec.loader.exec_module(m)
        sys.path[:] = path
        _mod['m'] = m
    return _mod['m'], _mod['cv2']


class Unclear(Exception):
    pass


# ---------------------------------------------------------------- definitions
def iou(a, b):
    a, b = [Fr(float(v)) for v in a], [Fr(float(v)) for v in b]
    w, h = min(a[2], b[2]) - max(a[0], b[0]), min(a[3], b[3]) - max(a[1], b[1])
    inter = w * h if w > 0 and h > 0 else Fr(0)
    union = (a[2] - a[0]) * (a[3] - a[1]) + (b[2] - b[0]) * (b[3] - b[1]) - inter
    return inter / union if union > 0 else Fr(0)


def fiou(a, b):
    w, h = min(a[2], b[2]) - max(a[0], b[0]), min(a[3], b[3]) - max(a[1], b[1])
    inter = w * h if w > 0 and h > 0 else 0.
    union = (a[2] - a[0]) * (a[3] - a[1]) + (b[2] - b[0]) * (b[3] - b[1]) - inter
    return inter / union if union > 0 else 0.


def above(a, b, thr, strict, eps=1e-6):
    """is the overlap of two boxes larger than (or at) the threshold"""
    v = fiou([float(x) for x in a], [float(x) for x in b])
    if abs(v - thr) > eps:
        return v > thr
    if iou(a, b) != Fr(thr) or thr not in (.25, .5, .75) or any(float(x) * 8 % 1 for x in list(a) + list(b)):
        raise Unclear('an overlap next to the threshold')
    return not strict


def decode(rows, size, conf, thr, max_det):
    """rows (x1 y1 x2 y2 score class) -> kept rows, number of suppressed ones"""
    H, W = size
    cand = []
    for r in rows:
        if r[4] > conf:
            x1, x2 = [min(max(float(v), 0.), W) for v in (r[0], r[2])]
            y1, y2 = [min(max(float(v), 0.), H) for v in (r[1], r[3])]
            if x2 > x1 and y2 > y1:
                cand.append((x1, y1, x2, y2, float(r[4]), float(r[5])))
    cand.sort(key=lambda r: -r[4])
    kept = []
    for r in cand:
        if not any(k[5] == r[5] and above(k[:4], r[:4], thr, True) for k in kept):
            kept.append(r)
    return kept[:max_det], len(cand) - len(kept)


def average_precision(dets, gts, thr):
    """one class: dets [(image, score, box)], gts {image: [box]} -> lowest and highest AP (the float recall points of 0.01 steps are not all exact)"""
    total = sum(len(v) for v in gts.values())
    if total == 0:
        return None
    free = {k: list(range(len(v))) for k, v in gts.items()}
    tp, points = 0, []
    for n, (img, score, box) in enumerate(sorted(dets, key=lambda d: -d[1]), 1):
        best = sorted(((fiou(box, gts[img][j]), j) for j in free.get(img, [])), reverse=True)
        if best:
            if len(best) > 1 and best[0][0] >= min(thr, .3) and best[0][0] - best[1][0] < 1e-9:
                raise Unclear('two annotations fit equally')
            if above(box, gts[img][best[0][1]], thr, False):
                tp += 1
                free[img].remove(best[0][1])
        points.append((Fr(tp, total), Fr(tp, n)))
    ends = []
    steps = np.linspace(0, 1, 101)
    for strict in (True, False):
        s = Fr(0)
        for j in range(101):
            r = Fr(j, 100)
            shaky = float(steps[j]) != j / 100
            s += max((p for rec, p in points if rec > r or (rec == r and not (shaky and strict))), default=Fr(0))
        ends.append(float(s / 101))
    return ends


def scores(dets, gts, classes, thresholds):
    """dets [(image, score, class, box)], gts [(image, class, box)] -> {thr: (lo, hi)}"""
    by, gt = defaultdict(list), defaultdict(lambda: defaultdict(list))
    for img, s, c, box in dets:
        by[c].append((img, s, box))
    for img, c, box in gts:
        gt[c][img].append(box)
    res = {}
    for thr in thresholds:
        aps = [a for c in range(classes) for a in [average_precision(by[c], gt[c], thr)] if a is not None]
        res[thr] = tuple(float(np.mean([a[k] for a in aps])) if aps else 0. for k in (0, 1))
    return res


def within(v, lohi, eps=1e-7):
    return lohi[0] - eps <= float(v) <= lohi[1] + eps


def judge_metrics(metrics, want, mon, key, what):
    thr = list(want)
    for t in thr:
        got = metrics['ap_per_iou'].get(f'mAP@{t:.2f}')
        mon.event('scores_compared')
        if got is None or not within(got, want[t]):
            mon.violation(key + ':ap', f'{what}: at {t:.2f} the score is {got}, by its definition {want[t]}')
            return False
    mean = [float(np.mean([want[t][k] for t in thr])) for k in (0, 1)]
    if not within(metrics['mAP@0.5:0.95'], mean):
        mon.violation(key + ':mean', f'{what}: mean {metrics["mAP@0.5:0.95"]}, by its definition {mean}')
        return False
    half = [t for t in thr if abs(t - .5) < 1e-12]
    if half and not within(metrics['mAP@0.5'], want[half[0]]):
        mon.violation(key + ':half', f'{what}: mAP@0.5 {metrics["mAP@0.5"]}, by its definition {want[half[0]]}')
        return False
    return True


# ---------------------------------------------------------------- workloads
def boxes(rng, n, H, W, integer):
    """xyxy boxes, many of them near others"""
    out = []
    for _ in range(n):
        k = rng.random()
        if out and k < .55:
            b = np.array(out[int(rng.integers(len(out)))])
            d = rng.integers(-3, 4, 4) if integer else rng.normal(0, rng.choice([.5, 3, 10]), 4)
            b = b + (d if rng.random() < .9 else 0)
        elif out and k < .62:       # half of another one
            b = np.array(out[int(rng.integers(len(out)))], float)
            b[2] = b[0] + (b[2] - b[0]) / 2
        else:
            x, y = rng.uniform(-20, W), rng.uniform(-20, H)
            b = np.array([x, y, x + rng.uniform(1, W / 2), y + rng.uniform(1, H / 2)])
            if integer:
                b = np.rint(b)
        out.append([float(v) for v in b])
    return out


def distinct_scores(rng, n, near=()):
    s = (rng.permutation(1000)[:n] + 1) / 1001
    return .3 + s / 100 if rng.random() < .3 else s


def post_case(rng, mon):
    m, _ = module()
    H, W = [int(v) for v in rng.choice([32, 64, 100, 320, 640, 641], 2)]
    n = int(rng.choice([0, 1, 2, 5, 10, 20, 40]))
    integer = rng.random() < .5
    dt = np.float64 if integer or rng.random() < .6 else np.float32
    rows = np.zeros((n, 6), dt)
    if n:
        rows[:, :4] = boxes(rng, n, H, W, integer)
        rows[:, 4] = distinct_scores(rng, n)
        rows[:, 5] = rng.integers(0, int(rng.choice([1, 2, 5, 80])), n)
    conf = float(rng.choice([.25, .001, .5, 0., .9]))
    if n and rng.random() < .3 and conf:
        rows[int(rng.integers(n)), 4] = conf           # a score at the threshold is not above it
    thr = float(rng.choice([.45, .5, .5, .7, .25, .1]))
    max_det = int(rng.choice([300, 300, 1, 3, 10]))
    if rng.random() < .1:
        extra = rng.random((n, 2)).astype(dt)
        rows = np.concatenate([rows, extra], 1)
    given = rows.copy()
    kw = {}
    if (conf, thr, max_det) != (.25, .45, 300) or rng.random() < .5:
        kw = dict(conf_thres=conf, iou_thres=thr, max_det=max_det)
    want, dropped = decode(rows, (H, W), conf, thr, max_det)
    with quiet():
        res = m.yolo_postprocess(rows[None] if rng.random() < .6 else rows, (H, W), **kw)
    if not np.array_equal(given, rows):
        mon.violation('post:input', 'decoding changes the output of the model')
    if len(res) != 1 or np.ndim(res[0]) != 2 or np.shape(res[0])[1] != 7:
        mon.violation('post:form', f'result of the form {[np.shape(r) for r in res]}')
        return
    got = sorted([tuple(float(v) for v in (r[1], r[2], r[3], r[4], r[6], r[5])) for r in res[0]], key=lambda r: -r[4])
    mon.event('boxes_decoded', n)
    mon.event('boxes_suppressed', dropped)
    if len(got) != len(want) or any(max(abs(a - b) for a, b in zip(x, y)) > 1e-4 for x, y in zip(got, want)) or any(r[0] != 0 for r in res[0]):
        mon.violation('post:boxes', f'of {rows.tolist()} in {H}x{W} over {conf}, overlap {thr}, at most {max_det}: {got}, by the definition {want}')
        return
    if dropped:
        mon.distinct((H, W, conf, thr, max_det, given.tobytes()))
        mon.sample({'boxes': n, 'kept': len(got), 'suppressed': dropped, 'threshold': thr, 'at_most': max_det})
    if n > 1:
        a, b = rows[:n // 2, :4], rows[n // 2:, :4]
        ok = lambda x: x[(x[:, 2] > x[:, 0]) & (x[:, 3] > x[:, 1])]
        a, b = ok(a), ok(b)
        if len(a) and len(b) and hasattr(m, '_box_iou'):
            with quiet():
                t = m._box_iou(a, b)
            for i in range(len(a)):
                for j in range(len(b)):
                    if abs(float(t[i, j]) - float(iou(a[i], b[j]))) > 1e-4:
                        mon.violation('iou', f'overlap of {a[i]} and {b[j]}: {t[i, j]}, by the definition {float(iou(a[i], b[j]))}')
                        return


def categories(rng, n):
    """category ids of n classes: from 0, from 1, or with gaps"""
    k = rng.random()
    ids = list(range(n)) if k < .4 else list(range(1, n + 1)) if k < .65 else sorted(int(v) for v in rng.choice(np.arange(1, 3 * n + 5), n, replace=False))
    cats = [{'id': i, 'name': f'c{i}'} for i in ids]
    if rng.random() < .4:
        rng.shuffle(cats)
        cats = [dict(c) for c in cats]
    return ids, cats


def dataset(rng, sizes, ids, integer):
    """annotations of images of the given sizes, as {image: [(class, box)]}"""
    gts = {}
    for img, (H, W) in sizes.items():
        n = int(rng.choice([0, 1, 2, 4, 7]))
        bs = [b for b in boxes(rng, n, H, W, integer)]
        gts[img] = [(int(rng.integers(len(ids))), [min(b[0], b[2]), min(b[1], b[3]), max(b[0], b[2]) + 1, max(b[1], b[3]) + 1]) for b in bs]
    return gts


def detections(rng, gts, sizes, n_cls, integer):
    """(image, class, box): annotations found more or less exactly, twice or not at all, and others"""
    out = []
    for img, (H, W) in sizes.items():
        for c, b in gts[img]:
            for _ in range(int(rng.choice([0, 1, 1, 1, 2]))):
                k = rng.choice([0, 0, 1, 4, 12])
                d = (rng.integers(-k, k + 1, 4) if integer else rng.normal(0, k, 4)) if k else np.zeros(4)
                q = [float(v) for v in np.array(b) + d]
                if q[2] > q[0] and q[3] > q[1]:
                    out.append((img, c if rng.random() < .92 else int(rng.integers(n_cls)), q))
        for b in boxes(rng, int(rng.choice([0, 0, 1, 3])), H, W, integer):
            if b[2] > b[0] and b[3] > b[1]:
                out.append((img, int(rng.integers(n_cls)), b))
    return out


def coco(gts, ids, cats, files, rng):
    anns = [{'image_id': img, 'category_id': ids[c], 'bbox': [b[0], b[1], b[2] - b[0], b[3] - b[1]], 'id': 0} for img in gts for c, b in gts[img]]
    rng.shuffle(anns)
    anns = [dict(a, id=k) for k, a in enumerate(anns)]
    return {'images': [{'id': img, 'file_name': f} for img, f in files.items()], 'annotations': anns, 'categories': cats}


def ap_case(rng, mon):
    m, _ = module()
    n = int(rng.choice([1, 2, 3, 6]))
    ids, cats = categories(rng, n)
    integer = rng.random() < .4
    imgs = [int(v) for v in rng.permutation(50)[:int(rng.integers(1, 6))]]
    sizes = {i: (200, 300) for i in imgs}
    gts = dataset(rng, sizes, ids, integer)
    if rng.random() < .1:       # many of one class: recalls at the sampled points
        k = int(rng.choice([10, 20, 25, 50, 100]))
        gts = {i: [] for i in imgs}
        gts[imgs[0]] = [(0, [20. * j, 0., 20. * j + 10, 10.]) for j in range(k)]
    ds = detections(rng, gts, sizes, n, integer)[:300]
    ss = distinct_scores(rng, len(ds))
    per = defaultdict(list)
    for (img, c, b), s in zip(ds, ss):
        per[img].append((float(s), c, b))
    dt = np.float64 if integer or rng.random() < .7 else np.float32
    entries = []
    for img in imgs:
        if per[img] or rng.random() < .6:
            p = per[img]
            entries.append({'image_id': img, 'boxes': np.array([x[2] for x in p], dt).reshape(-1, 4), 'scores': np.array([x[0] for x in p], dt),
                            'labels': np.array([x[1] for x in p], dt)})
    gt = coco(gts, ids, cats, {i: f'{i}.jpg' for i in imgs}, rng)
    if ids == list(range(n)) and rng.random() < .3:
        del gt['categories']
    thr = [None, None, [.5], [.3, .5, .75]][int(rng.integers(4))]
    ncls = int(rng.choice([n, n, 80, max(1, n - 1)]))
    want = scores([(e['image_id'], float(s), int(c), [float(v) for v in b]) for e in entries for s, c, b in zip(e['scores'], e['labels'], e['boxes'])],
                  [(i, c, b) for i in gts for c, b in gts[i]], ncls, thr or np.linspace(.5, .95, 10).tolist())
    before = json.dumps(gt)
    with quiet():
        got = m.compute_coco_metrics(entries, gt, num_classes=ncls, iou_thresholds=thr) if ncls != 80 or thr or rng.random() < .5 else m.compute_coco_metrics(entries, gt)
    if json.dumps(gt) != before:
        mon.violation('ap:input', 'the annotations are changed')
    if judge_metrics(got, want, mon, 'ap', f'{len(ds)} detections of {sum(map(len, gts.values()))} annotations, categories {ids}, {ncls} classes') and \
            any(0 < v[0] < 1 for v in want.values()):
        mon.distinct((str(ds), str(gts), ncls))
        mon.sample({'detections': len(ds), 'annotations': sum(map(len, gts.values())), 'category_ids': ids, 'scores': {f'{k:.2f}': round(v[0], 4) for k, v in list(want.items())[:3]}})


def data_case(rng, mon):
    """a whole evaluation: files, letterbox, model, decoding, scores"""
    m, cv2 = module()
    H, W = [(64, 64), (96, 64), (64, 100), (160, 160)][int(rng.integers(4))]
    n = int(rng.choice([1, 2, 4]))
    ids, cats = categories(rng, n)
    cnt = int(rng.integers(1, 6))
    nums = [int(v) for v in rng.permutation(1000)[:cnt]]
    sizes, files = {}, {}
    for img in nums:
        k = rng.random()
        sizes[img] = (H, W) if k < .15 else (int(rng.integers(8, 300)), int(rng.integers(8, 300))) if k < .9 else (int(rng.integers(4, 8)), 200)
    order = [int(v) for v in rng.permutation(nums)]
    kind = str(rng.choice(['coco', 'coco', 'dir', 'curve']))
    exts = ['.jpg', '.png', '.JPG', '.jpeg', '.bmp'] if kind == 'dir' else ['.jpg', '.png']
    for k, img in enumerate(order):
        files[img] = f'{int(rng.integers(100))}_{k}{rng.choice(exts)}'
    gts = dataset(rng, sizes, ids, False)
    ds = detections(rng, gts, sizes, n, False)
    ss = distinct_scores(rng, len(ds))
    value = {img: k + 1 for k, img in enumerate(order)}
    image_of = {v: k for k, v in value.items()}
    conf = float(rng.choice([.25, .001, .1]))
    thr = float(rng.choice([.45, .6, .7]))
    gt = coco(gts, ids, cats, {img: files[img] for img in order}, rng)
    missing = {img for img in nums if kind != 'dir' and rng.random() < .1}
    seen = {}

    def infer_single(img):
        a = np.asarray(img)
        if a.shape != (1, 3, H, W) or a.dtype != np.float32:
            mon.violation('data:image', f'the model of {H}x{W} is given {a.dtype}{list(a.shape)}')
            raise Unclear('no image')
        own = a[0, 0][np.abs(a[0, 0] * 255 - 114) > 1e-3]
        v = round(float(own[own.size // 2]) * 255) if own.size else 114
        if v not in image_of:
            mon.violation('data:image', f'the image of the model has the value {v}, which no image has')
            raise Unclear('no image')
        num = image_of[v]
        h, w = sizes[num]
        resize = [c for c in cv2.calls if c[0] == 'resize'][-1]
        inside = np.abs(a[0] * 255 - v).max(axis=0) < 1e-3
        border = np.abs(a[0] * 255 - 114).max(axis=0) < 1e-3
        ys, xs = np.nonzero(inside)
        top, left, nh, nw = ys.min(), xs.min(), np.ptp(ys) + 1, np.ptp(xs) + 1
        scale = min(H / h, W / w)
        mon.event('letterboxes')
        if inside.sum() != nh * nw or (inside | border).sum() != H * W or (nh, nw) != resize[1:3] or abs(nh - h * scale) > 1 or abs(nw - w * scale) > 1 \
                or abs(2 * top + nh - H) > 1 or abs(2 * left + nw - W) > 1:
            mon.violation('data:letterbox', f'an image of {h}x{w} is laid at ({top}, {left}) with {nh}x{nw} into {H}x{W}')
            raise Unclear('no image')
        rows = np.array([[b[0] * scale + left, b[1] * scale + top, b[2] * scale + left, b[3] * scale + top, s, c]
                         for (i, c, b), s in zip(ds, ss) if i == num], float).reshape(-1, 6)
        seen[num] = (rows, left, top, scale)
        return rows[None]
    ev = m.YOLOEvaluator.__new__(m.YOLOEvaluator)
    ev.onnx_path, ev.input_size, ev.conf_thres, ev.iou_thres, ev.device, ev.dtype = 'm.onnx', (H, W), conf, thr, 'cpu', None
    ev.infer_single = infer_single
    del cv2.calls[:]
    with scratch() as d:
        images = d if kind == 'dir' else os.path.join(d, 'val2017')
        os.makedirs(images, exist_ok=True)
        for img in nums:
            if img in missing:
                continue
            with open(os.path.join(images, files[img]), 'wb') as f:
                np.save(f, np.full(sizes[img] + (3,), value[img], np.uint8))
        anno = os.path.join(d, 'instances.json')
        with open(anno, 'w') as f:
            json.dump(gt, f)
        limit = int(rng.integers(1, cnt + 1)) if rng.random() < .4 else -1
        save = os.path.join(d, 'out') if rng.random() < .4 else None
        drawgt = rng.random() < .5
        what = f'{kind} of {cnt} images {[sizes[i] for i in order]} into {H}x{W}, category ids {ids}, limit {limit}, {len(missing)} missing'
        with quiet():
            if kind == 'coco':
                got = ev.evaluate_coco(anno, max_images=limit, save_dir=save, draw_gt=drawgt)
                chosen = order if limit < 0 else order[:limit]
            elif kind == 'dir':
                got = ev.evaluate_image_dir(d, anno_file=anno, max_images=limit, save_dir=save, draw_gt=drawgt)
                chosen = sorted(order, key=lambda i: files[i])
                chosen = chosen if limit < 0 else chosen[:limit]
            else:
                out = os.path.join(d, 'pr.json')
                m.export_pr_curve(ev, anno, out, max_images=limit if limit > 0 else 500, num_thresholds=5)
                got = json.load(open(out))
                chosen = order if limit < 0 else order[:limit]
    chosen = [i for i in chosen if i not in missing]
    mon.event('evaluations')
    if set(seen) != set(chosen):
        mon.violation('data:images', f'{what}: evaluated are {sorted(seen)}, chosen {sorted(chosen)}')
        return
    found, drawn = [], []
    for num, (rows, left, top, scale) in seen.items():
        kept = decode(rows, (H, W), conf, thr, 300)[0] if kind != 'curve' else [tuple(r) for r in rows]
        for r in kept:
            b = [(r[0] - left) / scale, (r[1] - top) / scale, (r[2] - left) / scale, (r[3] - top) / scale]
            found.append((num, r[4], int(r[5]), b))
    truth = [(i, c, b) for i in chosen for c, b in gts[i]]
    if kind == 'curve':
        if len(got['pr_points']) != 5:
            mon.violation('curve:points', f'{what}: {len(got["pr_points"])} points for 5')
            return
        for k, p in enumerate(got['pr_points']):
            t = .01 + k * .98 / 4
            if abs(p['threshold'] - t) > 1e-9:
                mon.violation('curve:threshold', f'point {k} is for {p["threshold"]}, not {t}')
                return
            sel = [f for f in found if f[1] >= t]
            want = scores(sel, truth, 80, [.5])[.5]
            mon.event('curve_points')
            mon.event('scores_compared')
            if p['num_detections'] != len(sel) or not within(p['mAP@0.5'], want):
                mon.violation('curve:score', f'{what}: at {t} {p}, by the definition {len(sel)} detections with {want}')
                return
            if 0 < want[0] < 1:
                mon.distinct((str(ds), str(gts), t))
        return
    want = scores(found, truth, n, np.linspace(.5, .95, 10).tolist())
    if not judge_metrics(got, want, mon, 'data', what):
        return
    if save:
        rects = sorted([list(c[1] + c[2]) for c in cv2.calls if c[0] == 'rectangle' and c[3] > 0])
        boxes_ = []
        for num, s, c, b in found:
            h, w = sizes[num]
            q = [max(0, min(int(b[0]), w - 1)), max(0, min(int(b[1]), h - 1)), max(0, min(int(b[2]), w - 1)), max(0, min(int(b[3]), h - 1))]
            mon.event('rectangles_judged')
            near = [r for r in rects if max(abs(x - y) for x, y in zip(r, q)) <= 1]
            if not near and q[2] > q[0] + 1 and q[3] > q[1] + 1:
                mon.violation('data:drawn', f'{what}: {b} in an image of {h}x{w} is not drawn at {q}; drawn are {rects}')
                return
            boxes_.append(q)
        for r in rects:
            if not any(max(abs(x - y) for x, y in zip(r, q)) <= 1 for q in boxes_):
                mon.violation('data:drawn', f'{what}: {r} is drawn, detections are at {boxes_}')
                return
        written = [c[1] for c in cv2.calls if c[0] == 'imwrite']
        if sorted(os.path.basename(p) for p in written) != sorted(files[i] for i in chosen):
            mon.violation('data:written', f'{what}: written are {written}')
            return
    if any(0 < v[0] < 1 for v in want.values()):
        mon.distinct((kind, str(ds), str(gts)))


def run(case, mon):
    kind, seed, i = case
    rng = rng_for('P36', kind, seed, i)
    try:
        {'post': post_case, 'ap': ap_case, 'data': data_case}[kind](rng, mon)
    except Unclear as e:
        mon.inconclusive(str(e))
