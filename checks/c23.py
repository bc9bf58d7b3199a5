"""C23: comparison of plot images, and selection and naming of the files of a validation run."""
import datetime as dt
import os
os.environ['OPENCV_LOG_LEVEL'] = 'SILENT'
import shutil
import tempfile
import time

import cv2
import numpy as np

from vlib import Check, Raised, main_guard


def picture(rng, h, w):
    """a plot-like image: background, boxes, lines"""
    img = np.full((h, w, 3), 255, np.uint8)
    for _ in range(int(rng.integers(2, 6))):
        x0, y0 = int(rng.integers(0, w - 8)), int(rng.integers(0, h - 8))
        c = tuple(int(v) for v in rng.integers(0, 256, 3))
        img[y0:y0 + int(rng.integers(2, h)), x0:x0 + int(rng.integers(2, w))] = c
    img[int(rng.integers(0, h)), :] = 0
    return img


def grey(img):
    return cv2.cvtColor(img, cv2.COLOR_BGR2GRAY)


BATCH = """#!/bin/sh
# stands for the plotting program: records its document and makes the files it is told to make
home=$(dirname "$(dirname "$0")")
get() { sed -n "s:.*<$1>\\([^<]*\\)</$1>.*:\\1:p" "$2"; }
plot=$(get plot_file "$1"); echo "$1" >> "$home/calls"
cp "$1" "$home/seen/"
echo data > "$(get data "$1")$(get data_file "$1")"
echo script > "$(get scripts "$1")$(get r_file "$1")"
if [ -f "$home/new/$plot" ]; then cp "$home/new/$plot" "$(get plots "$1")$plot"; fi
exit 0
"""
FIELDS = ('plot_file', 'data_file', 'r_file', 'r_tmpl', 'r_work', 'plots', 'user', 'password', 'data', 'scripts')


def run_case(ck, rng, vm, d):
    """a whole validation run with a stand-in for the plotting program"""
    dirs = {k: d + k + '/' for k in ('input_xml_dir', 'output_xml_dir', 'output_plots_dir', 'output_data_dir', 'output_scripts_dir')}
    for p in list(dirs.values()) + [d + 'mv/bin', d + 'mv/new', d + 'mv/seen', d + 'orig']:
        os.makedirs(p)
    with open(d + 'mv/bin/mv_batch.sh', 'w') as fh:
        fh.write(BATCH)
    os.chmod(d + 'mv/bin/mv_batch.sh', 0o755)
    params = dict(dirs, mv_home=d + 'mv/', db_user='reader', db_pass='secret', start_date='2020-01-01')
    if rng.random() < .5:
        params['end_date'] = str(dt.date.today())
    plots = {}
    names = ['alpha', 'beta', 'gamma', 'delta']
    # names that start alike, documents in any order
    alike = rng.random() < .5
    order = rng.permutation(5)
    docs = {}
    for k in range(int(rng.integers(1, 5))):
        name = names[k] + ('' if k % 2 else '_20_1')
        if alike:
            name = ['plot_1', 'plot_10', 'plot_1.5', 'plot_1_b', 'plot'][order[k]]
        docs[name] = 'abcd'[k] + '_' + name
        kind = str(rng.choice(['same', 'different', 'none', 'old only', 'new only']))
        large = rng.random() < .3
        a = picture(rng, 600, 800) if large else picture(rng, 40, 50)
        b = a.copy()
        if kind == 'different':
            if large:
                # one point, on a plain ground
                b[296:305, 396:405] = a[296:305, 396:405] = 120
                b[300, 400] = 120 + int(rng.choice([4, 30, 100]))
            else:
                b[10:20, 10:20] = 255 - b[10:20, 10:20]
        if kind in ('same', 'different', 'old only'):
            cv2.imwrite(f'{d}orig/{name}.png', a)
        if kind in ('same', 'different', 'new only'):
            cv2.imwrite(f'{d}mv/new/{name}_py.png', b)
        vals = dict(zip(FIELDS, (name + '.png', name + '.data', name + '.R', '/old/tmpl', '/old/work', d + 'orig', 'x', 'y', '/old/data', '/old/scripts')))
        tags = list(rng.permutation(FIELDS))
        with open(f"{dirs['input_xml_dir']}{docs[name]}.xml", 'w') as fh:
            fh.write('<plot_spec>' + ''.join(f'<{f}>{vals[f]}</{f}>' for f in tags) + '<template>series_plot.R_tmpl</template></plot_spec>')
        plots[name] = kind
    # results of an earlier run
    for p in ('output_xml_dir', 'output_plots_dir', 'output_data_dir', 'output_scripts_dir'):
        open(dirs[p] + 'stale.txt', 'w').close()
    before = {f: open(dirs['input_xml_dir'] + f).read() for f in os.listdir(dirs['input_xml_dir'])}
    ck.case_input = {'plots': plots}
    res = ck.call(vm.main, params)
    if isinstance(res, Raised):
        ck.expect(False, 'run/raises', f'{plots}: {res}', monitor='run')
        shutil.rmtree(d)
        return
    calls = open(d + 'mv/calls').read().split() if os.path.exists(d + 'mv/calls') else []
    want_calls = [f"{dirs['output_xml_dir']}{docs[n]}_py.xml" for n in plots]
    ck.expect(sorted(calls) == sorted(want_calls), 'run/calls', lambda: f'program run for {calls}, expected {want_calls}', monitor='run')
    import xml.etree.ElementTree as et
    for name, kind in plots.items():
        seen = f'{d}mv/seen/{docs[name]}_py.xml'
        if os.path.exists(seen):
            root = et.parse(seen).getroot()
            got = {f: root.find(f).text for f in FIELDS}
            want = dict(zip(FIELDS, (name + '_py.png', name + '_py.data', name + '_py.R', d + 'mv/R_tmpl', d + 'mv/R_work', dirs['output_plots_dir'], 'reader', 'secret',
                                     dirs['output_data_dir'], dirs['output_scripts_dir'])))
            ck.expect(got == want and root.find('template').text == 'series_plot.R_tmpl', 'run/document', lambda: f'document {got}, expected {want}', monitor='run')
        have = {'xml': os.path.exists(f"{dirs['output_xml_dir']}{docs[name]}_py.xml"), 'data': os.path.exists(f"{dirs['output_data_dir']}{name}_py.data"),
                'script': os.path.exists(f"{dirs['output_scripts_dir']}{name}_py.R"), 'plot': os.path.exists(f"{dirs['output_plots_dir']}{name}_py.png"),
                'thresh': os.path.exists(f"{dirs['output_plots_dir']}{name}_thresh.png")}
        done = kind in ('same', 'none')
        want = {'xml': not done, 'data': not done, 'script': not done, 'plot': kind in ('different', 'new only'), 'thresh': kind == 'different'}
        ck.expect(have == want, f'run/results/{kind}', lambda: f'{kind}: left {have}, expected {want}', monitor='run')
        ck.nontrivial('run', kind, name, len(plots))
        ck.expect(os.path.exists(f'{d}orig/{name}.png') == (kind in ('same', 'different', 'old only')), 'run/original', f'{kind}: original image', monitor='run')
    ck.expect(not any(os.path.exists(dirs[p] + 'stale.txt') for p in dirs), 'run/stale', 'results of the earlier run are left', monitor='run')
    ck.expect({f: open(dirs['input_xml_dir'] + f).read() for f in os.listdir(dirs['input_xml_dir'])} == before, 'run/input', 'an input document changed', monitor='run')
    today = dt.date.today()
    per = ck.call(vm.get_testing_period, {})
    now = dt.date.today()
    ck.expect(per in ((today - dt.timedelta(1), today), (now - dt.timedelta(1), now)), 'run/period', lambda: f'default period {per} on {now}', monitor='run')
    shutil.rmtree(d)


def main():
    from metcalcpy.compare_images import CompareImages
    from metcalcpy import validate_mv_python as vm
    ck = Check('C23', 'image comparison against the pixels, file selection against the calendar')
    tmp = tempfile.mkdtemp(prefix='c23_')
    for rng, i in ck.cases('images', 150, 900):
        h, w = (int(v) for v in rng.integers(24, 90, 2))
        if rng.random() < .06:
            h, w = (int(v) for v in rng.integers(300, 900, 2))
        a = picture(rng, h, w)
        b = a.copy()
        kind = str(rng.choice(['same', 'patch', 'patch', 'pixel', 'shift', 'corner']))
        y, x = int(rng.integers(8, h - 8)), int(rng.integers(8, w - 8))
        if kind == 'patch':
            b[y - 4:y + 5, x - 4:x + 5] = 255 - b[y - 4:y + 5, x - 4:x + 5]
        elif kind == 'pixel':
            b[y, x] = 255 - b[y, x]
        elif kind == 'corner':
            # a small change at the edge of the picture
            yy, xx = int(rng.choice([0, h - 1])), int(rng.choice([0, w - 1]))
            b[yy, xx] = 255 - b[yy, xx]
        elif kind == 'shift':
            b = np.roll(b, 1, axis=1)
        p1, p2 = os.path.join(tmp, 'a.png'), os.path.join(tmp, 'b.bmp' if i % 2 else 'b.png')
        cv2.imwrite(p1, a)
        cv2.imwrite(p2, b)
        same = np.array_equal(grey(a), grey(b))
        far = int(np.abs(grey(a).astype(int) - grey(b).astype(int)).max())
        ck.case_input = {'kind': kind, 'size': (h, w), 'at': (y, x)}
        cmp = ck.call(CompareImages, p1, p2)
        back = ck.call(CompareImages, p2, p1)
        if isinstance(cmp, Raised) or isinstance(back, Raised):
            ck.expect(False, 'images', f'{kind} {h}x{w}: {cmp} {back}', monitor='mssim')
            continue
        m = cmp.get_mssim()
        if not same and far < 3:
            ck.skip('no visible difference')
        else:
            ck.expect((m == 1.) == same, 'images/equal', lambda: f'{kind}: similarity {m}, largest grey difference {far}', monitor='mssim')
            ck.expect(-1 <= m <= 1, 'images/range', lambda: f'similarity {m}', monitor='mssim')
            ck.expect(abs(m - back.get_mssim()) < 1e-9, 'images/symmetric', lambda: f'{m} and {back.get_mssim()} in the other order', monitor='mssim')
            ck.nontrivial(kind, round(m, 12))
        # the diagnostics can be written in any order and more than once
        outs = {}
        todo = ['save_difference_image', 'save_thresh_image', 'save_difference_in_image_1', 'save_difference_in_image_2'] * 2
        for k in rng.permutation(len(todo)):
            f = os.path.join(tmp, 'd.png')
            res = ck.call(getattr(cmp, todo[k]), f)
            if isinstance(res, Raised):
                ck.expect(False, 'images/save', f'{todo[k]}: {res}', monitor='save')
                continue
            got = cv2.imread(f)
            os.unlink(f)
            ck.expect(got is not None and got.shape == a.shape, 'images/save', lambda: f'{todo[k]}: no image of the same size', monitor='save')
            old = outs.setdefault(todo[k], got)
            ck.expect(got is not None and np.array_equal(old, got), 'images/repeat', lambda: f'{todo[k]}: a second image differs', monitor='save')
        # windows show the same images (the display is replaced by a recorder)
        for name in rng.permutation(4):
            what = ['difference_image', 'thresh_image', 'difference_in_image_1', 'difference_in_image_2'][name]
            shown, waits = [], []
            wait = bool(rng.random() < .5)
            fresh = ck.call(CompareImages, p1, p2)
            old = cv2.imshow, cv2.waitKey
            cv2.imshow, cv2.waitKey = lambda t, im: shown.append(np.array(im)), lambda *a: waits.append(a)
            try:
                res = ck.call(getattr(fresh, 'show_' + what), *([wait] if wait else []))
            finally:
                cv2.imshow, cv2.waitKey = old
            saved = outs.get('save_' + what)
            same_img = len(shown) == 1 and saved is not None and np.array_equal(shown[0] if shown[0].ndim == 3 else cv2.cvtColor(shown[0], cv2.COLOR_GRAY2BGR), saved)
            ck.expect(not isinstance(res, Raised) and same_img and bool(waits) == wait, 'images/show', lambda: f'{what}: {res}, {len(shown)} windows, {len(waits)} waits',
                      monitor='show')
        if kind == 'patch' and far >= 60 and len(outs) == 4:
            # the differences show at the changed place only, marked in a copy of each image
            d = cv2.cvtColor(outs['save_difference_image'], cv2.COLOR_BGR2GRAY)
            t = cv2.cvtColor(outs['save_thresh_image'], cv2.COLOR_BGR2GRAY)
            away = np.ones((h, w), bool)
            away[max(0, y - 12):y + 13, max(0, x - 12):x + 13] = False
            ck.expect(bool(np.all(d[away] >= 250)) and int(d[y - 4:y + 5, x - 4:x + 5].min()) < 250, 'images/place',
                      lambda: f'difference image {int(d[away].min()) if away.any() else None} away from the change, {int(d[y, x])} in it', monitor='place')
            ck.expect(bool(t[y - 6:y + 7, x - 6:x + 7].any()) and not t[away].any(), 'images/thresh', 'threshold image marks other places', monitor='place')
            for name, src in (('save_difference_in_image_1', a), ('save_difference_in_image_2', b)):
                o = outs[name]
                away2 = np.ones((h, w), bool)
                away2[max(0, y - 16):y + 17, max(0, x - 16):x + 17] = False
                ck.expect(np.array_equal(o[away2], src[away2]) and not np.array_equal(o, src), 'images/marked',
                          lambda: f'{name}: not a marked copy of its image', monitor='place')
                # the mark is a red frame around the marked area of the threshold image
                my, mx = np.nonzero(np.any(o != src, axis=2))
                ty, tx = np.nonzero(t)
                if len(my) and len(ty):
                    inside = my.min() <= max(ty.min(), 0) and my.max() >= min(ty.max(), h - 1) and mx.min() <= tx.min() and mx.max() >= min(tx.max(), w - 1)
                    red = bool(np.all(o[my, mx] == (0, 0, 255)))
                    ck.expect(inside and red, 'images/frame', lambda: f'{name}: frame {my.min()}..{my.max()} x {mx.min()}..{mx.max()}, area {ty.min()}..{ty.max()} x '
                              f'{tx.min()}..{tx.max()}, red {red}', monitor='place')
        ck.sample({'kind': kind, 'similarity': float(m), 'largest grey difference': far})
        bad = ck.call(CompareImages, p1, os.path.join(tmp, 'none.png'))
        ck.expect(isinstance(bad, Raised) and bad.type == 'KeyError', 'images/missing', lambda: f'missing image: {bad}', monitor='missing')
        bad = ck.call(CompareImages, os.path.join(tmp, 'none.png'), p1)
        ck.expect(isinstance(bad, Raised) and bad.type == 'KeyError', 'images/missing', lambda: f'missing image: {bad}', monitor='missing')

    for rng, i in ck.cases('files', 200, 900):
        d = os.path.join(tmp, f'x{i}')
        os.makedirs(d)
        # days are those of the local calendar
        os.environ['TZ'] = ['UTC0', 'MST7', 'JST-9'][i % 3]
        time.tzset()
        base = dt.date(2021, 1, 1) + dt.timedelta(days=int(rng.integers(0, 400)))
        want = []
        s, e = sorted(int(v) for v in rng.integers(0, 10, 2))
        for k in range(int(rng.integers(1, 12))):
            ext = str(rng.choice(['.xml', '.xml', '.txt', '.xml.bak', '.XML']))
            name = f'plot_{int(rng.integers(1000))}_{k}{ext}'
            day = int(rng.integers(-1, 11))
            when = dt.datetime.combine(base + dt.timedelta(days=day), dt.time(int(rng.integers(0, 24)), int(rng.integers(0, 60))))
            with open(os.path.join(d, name), 'w') as fh:
                fh.write('x')
            os.utime(os.path.join(d, name), (when.timestamp(),) * 2)
            if s <= day <= e and ext == '.xml':
                want.append(d + '/' + name)
        params = {'input_xml_dir': d + '/', 'start_date': str(base + dt.timedelta(days=s)), 'end_date': str(base + dt.timedelta(days=e))}
        if rng.random() < .3:
            # dates as the YAML reader gives them
            params['start_date'] = base + dt.timedelta(days=s)
        ck.case_input = {'params': params, 'files': sorted(os.listdir(d))}
        got = ck.call(vm.get_test_xml, params)
        ck.expect(got == sorted(want), 'files/selected', lambda: f'{got}, expected {sorted(want)}', monitor='files')
        ck.nontrivial('files', len(want), i)
        if s != e:
            bad = ck.call(vm.get_testing_period, {'start_date': params['end_date'], 'end_date': str(params['start_date'])})
            ck.expect(isinstance(bad, Raised) and bad.type == 'KeyError', 'files/period', lambda: f'reversed period: {bad}', monitor='files')
        stem = 'plot' + ''.join(str(rng.choice(['_', '.', 'a', '7'])) for _ in range(int(rng.integers(0, 6)))) + 'z'
        ext = str(rng.choice(['.png', '.xml', '.R']))
        got = ck.call(vm.replace_name, stem + ext, 'py')
        ck.expect(got == stem + '_py' + ext, 'files/name', lambda: f'{stem + ext} became {got}', monitor='names')
        # cleaning removes exactly the results of the previous run
        dirs = {k: os.path.join(d, k) for k in ('output_xml_dir', 'output_plots_dir', 'output_data_dir', 'output_scripts_dir')}
        for p in dirs.values():
            os.makedirs(p)
            for k in range(int(rng.integers(0, 3))):
                open(os.path.join(p, f'f{k}'), 'w').close()
        before = sorted(f for f in os.listdir(d) if f not in dirs)
        res = ck.call(vm.clean, dirs)
        ck.expect(not isinstance(res, Raised) and not any(os.listdir(p) for p in dirs.values()) and
                  sorted(f for f in os.listdir(d) if f not in dirs) == before, 'files/clean', lambda: f'cleaning: {res}', monitor='files')
        shutil.rmtree(d)
    os.environ['TZ'] = 'UTC0'
    time.tzset()
    for rng, i in ck.cases('run', 60, 300):
        run_case(ck, rng, vm, os.path.join(tmp, f'r{i}') + '/')
    shutil.rmtree(tmp, ignore_errors=True)
    ck.finish(300)


main_guard(main)
