"""Scenes in which the tools that start other tools are analysed"""
from vfa.core import *
from vfa import sysmodel as sysm
from vfa.terms import mk

BAG = 'hand_eye_calibration/bin/bag_to_csv_with_config'
EXTRACT = 'hand_eye_calibration/bin/target_extractor_interface'
CIRCLE = 'hand_eye_calibration/scripts/close_the_circle_test'
SCRIPT = 'hand_eye_calibration/scripts/compute_complete_handeye_calibration.sh'
CONFIG = {'bags': [
    {'name': 'first.bag', 'bag_path': '/data/', 'intrinsics_path': '/calib/', 'target_config_path': '/target/',
     'tf_frames': {'source': ['hand', 'wrist'], 'target': ['base', 'world']},
     'cameras': {'cam_topics': ['/cam0/image', '/cam1/image'], 'cam_intrinsics': ['cam0.yaml', 'cam1.yaml']},
     'target': 'board.yaml'},
    {'name': 'second.bag', 'bag_path': '/more/', 'intrinsics_path': '/other/', 'target_config_path': '/boards/',
     'tf_frames': None, 'cameras': {'cam_topics': ['/eye/raw'], 'cam_intrinsics': ['eye.yaml']}, 'target': 'small.yaml'},
    {'name': 'third.bag', 'bag_path': '/last/', 'intrinsics_path': '/last/', 'target_config_path': '/last/',
     'tf_frames': {'source': ['tool'], 'target': ['map']}, 'cameras': None, 'target': 'none.yaml'},
    {'name': 'fourth.bag', 'bag_path': '/data/', 'intrinsics_path': '/calib/', 'target_config_path': '/target/',
     'tf_frames': {'source': ['tool'], 'target': ['map']},
     'cameras': {'cam_topics': ['/eye/raw'], 'cam_intrinsics': ['cam0.yaml']}, 'target': 'board.yaml'}]}
TARGET = ['april_tag_number_vertical', 'april_tag_number_horizontal', 'april_tag_number_pixel_boarder',
          'april_tag_size_m', 'april_tag_gap_size_m']


def data(x):
    """a constant structure as a value"""
    if isinstance(x, dict):
        return mk('fdict', tuple((T.const(k), data(v)) for k, v in x.items()))
    if isinstance(x, list):
        return T.flist([data(v) for v in x])
    return x if isinstance(x, T.Term) else T.const(x)


def loading(base, content):
    ms = dict(base)
    for n in ('yaml.safe_load', 'yaml.load', 'yaml.full_load'):
        ms[n] = lambda it, st, args, kw, node: it.thaw(st, content)
    return ms


class Tool:
    """a starting tool and the content of the configuration it reads"""
    def __init__(self, mod, content, args):
        self.mod, self.content, self.args = mod, content, args
        self.name = mod.split('/')[-1]

    def run(self, c, fail=None):
        """analyse the tool; the started process number `fail` exits with an error"""
        c.main(self.mod)

        def build(it, st):
            it.explicit_raises = True
            it.started = 0
            it.unroll = 200

            def exits(argv):
                it.started += 1
                return T.ONE if it.started - 1 == fail else T.ZERO
            it.exits = exits
            it.argvals = {k: (lambda it, st, v=v: v) for k, v in self.args.items()}
            return []
        return c.run(self.mod, '__main__', build, models=loading(c.system(), self.content))


def launches(r):
    """argument lists of the processes a run starts, None if they are not determined"""
    if r.value.op == 'unk' and not r.raised:
        return None
    log = sysm.log(r.it, r.st)
    if log.op != 'flist':
        return None
    out = []
    for e in log.args:
        if e.op != 'tup' or e.args[0].op != 'const':
            return None
        if e.args[0].args[0] == 'launch':
            if e.args[1].op not in ('flist', 'tup'):
                return None
            out.append(e.args[1])
    return out


TOOLS = [
    Tool(BAG, data(CONFIG), {'yaml_config_file': T.const('config.yaml')}),
    Tool(EXTRACT, data({k: atom(T.sym(k)) for k in TARGET}), {
        k: sysm.strsym(k) for k in ('bag', 'calib_file_camera', 'calib_file_target', 'image_topic', 'output_file')})]
