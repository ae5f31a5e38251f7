"""P41 export wrappers"""
import sys

from symx.main import Harness
from lib import *
from p42 import processes

B = ('1 or 2 bags with 0 to 2 frame pairs and 0 to 2 cameras or none configured, unequal lists refused; all target sizes and gaps in [0.001,10] m and tag '
     'counts 1 to 9; configuration files as the YAML reader returns them; numbers in files are exact')
BAG = 'hand_eye_calibration/bin/bag_to_csv_with_config.py'
TE = 'hand_eye_calibration/bin/target_extractor_interface.py'


def configuration(T, name, content):
  """a configuration file; JSON is YAML. The symbolic runs have a stand-in for the reader"""
  import json
  J = T.loader.mods['json'] if T.symbolic else json
  T.write(name, J.dumps(content))
  if T.symbolic:
    class YAMLError(Exception):
      pass

    def load(stream, Loader):
      return J.loads(stream if isinstance(stream, str) else stream.read())

    def safe_load(stream):
      return load(stream, None)
    T.module('yaml', load=load, safe_load=safe_load, full_load=safe_load, YAMLError=YAMLError, SafeLoader=1, FullLoader=2, Loader=3, CLoader=4,
             CSafeLoader=5, BaseLoader=6)
  else:
    import yaml  # noqa: F401
    import argparse  # noqa: F401
    import copy  # noqa: F401
  return T.path(name)


def options(T, words):
  """program and its options, given as --name value or --name=value"""
  prog = [w for w in words[:3]]
  out, flags = {}, []
  k = 3
  while k < len(words):
    w = words[k]
    T.check(w.startswith('--'), 'options have names')
    if '=' in w:
      n, _, v = w[2:].partition('=')
      out[n] = v
      k += 1
    elif k + 1 < len(words) and not words[k + 1].startswith('--'):
      out[w[2:]] = words[k + 1]
      k += 2
    else:
      flags.append(w[2:])
      k += 1
  return prog, out, flags


SPECIAL = ['/cam/image_raw', '/a', '/b/c']


def bag_of(k, frames, cameras):
  return {'name': 'run%d.bag' % k, 'bag_path': '/data%d/' % k, 'intrinsics_path': '/calib%d/' % k, 'target_config_path': '/target%d/' % k,
          'target': 'april%d.yaml' % k,
          'tf_frames': None if frames is None else {'source': ['s%d%d' % (k, i) for i in range(frames[0])], 'target': ['t%d%d' % (k, i) for i in range(frames[1])]},
          'cameras': None if cameras is None else {'cam_topics': ['/cam%d%d/image_raw' % (k, i) for i in range(cameras[0])],
                                                   'cam_intrinsics': ['in%d%d.yaml' % (k, i) for i in range(cameras[1])]}}


def bags(n):
  def f(T):
    size = T.choice('sizes', [None, 0, 1, 2])
    cam = T.choice('cameras', [None, 0, 1, 2])
    conf = [bag_of(0, None if size is None else (size, size), None if cam is None else (cam, cam))]
    if n == 2:
      conf.append(bag_of(1, (1, 1), (2, 2)))
    path = configuration(T, 'conf.yaml', {'bags': conf})
    started = processes(T, T.real('exit code', 0, 1))
    T.run(BAG, ['--yaml_config_file', path])
    want = []
    for k, c in enumerate(conf):
      f = c['tf_frames']
      for s, t in zip(f['source'], f['target']) if f else []:
        want.append(('tf_to_csv.py', {'bag': '/data%d/run%d.bag' % (k, k), 'tf_source_frame': s, 'tf_target_frame': t,
                                      'csv_output_file': 'run%d_%s_%s.csv' % (k, t, s)}))
      f = c['cameras']
      for s, t in zip(f['cam_topics'], f['cam_intrinsics']) if f else []:
        want.append(('target_extractor_interface.py', {
            'bag': '/data%d/run%d.bag' % (k, k), 'image_topic': s, 'calib_file_camera': '/calib%d/' % k + t,
            'calib_file_target': '/target%d/april%d.yaml' % (k, k), 'output_file': 'run%d_W_%s.csv' % (k, s[1:].replace('/', '_'))}))
    T.cover('%d calls' % min(len(want), 1))
    T.check(len(started) == len(want), 'one export per frame pair and per camera')
    for (words, shell), (prog, opt) in zip(started, want):
      p, o, flags = options(T, words)
      T.check(p == ['rosrun', 'hand_eye_calibration', prog] and not shell, 'exporter')
      T.check(o == opt and not flags, 'what is exported')
  f.__name__ = 'bags%d' % n
  return f


def unequal(T):
  """frame pairs or cameras that do not match are refused before they are exported"""
  kind = T.choice('kind', ['frames', 'cameras'])
  pair = T.choice('sizes', [(1, 0), (0, 1), (2, 1), (1, 2)])
  path = configuration(T, 'conf.yaml', {'bags': [bag_of(0, pair if kind == 'frames' else (1, 1), pair if kind == 'cameras' else (1, 1))]})
  started = processes(T, 0)
  try:
    T.run(BAG, ['--yaml_config_file', path])
    e = None
  except Exception as x:
    e = x
  T.check(e is not None, 'lists of different lengths are refused')
  bad = 'tf_to_csv.py' if kind == 'frames' else 'target_extractor_interface.py'
  T.check(not any(bad in w for w, s in started), 'nothing of a mismatched list is exported')


def target(T):
  """the target's numbers reach the extractor"""
  size, gap = T.real('size', 1e-3, 10), T.real('gap', 1e-3, 10)
  counts = {'april_tag_number_vertical': T.choice('rows', [1, 6, 9]), 'april_tag_number_horizontal': T.choice('columns', [2, 7]),
            'april_tag_number_pixel_boarder': T.choice('boarder', [1, 2, 3])}
  conf = dict(counts, april_tag_size_m=size, april_tag_gap_size_m=gap)
  path = configuration(T, 'target.yaml', conf)
  started = processes(T, T.real('exit code', 0, 1))
  T.run(TE, ['--bag', '/data/run.bag', '--calib_file_camera', '/calib/cam.yaml', '--calib_file_target', path, '--image_topic', '/cam/image_raw',
             '--output_file', 'out.csv'])
  T.check(len(started) == 1, 'one extraction')
  for words, shell in started[:1]:
    p, o, flags = options(T, words)
    T.check(p == ['rosrun', 'hand_eye_calibration_target_extractor', 'target_extractor'] and not shell, 'extractor')
    text = {'bag': '/data/run.bag', 'topic': '/cam/image_raw', 'eval_camera_yaml': '/calib/cam.yaml',
            'camera_pose_T_C_G_output_file_timestamped': 'out.csv', 'camera_pose_T_C_G_output_file': 'sequenced_out.csv'}
    for n, v in text.items():
      T.check(o.get(n) == v, 'files and topic')
    T.check(o.get('write_csv_header') == 'False', 'poses are written without a header')
    for n, v in (('april_tag_number_vertical', counts['april_tag_number_vertical']), ('april_tag_number_horizontal', counts['april_tag_number_horizontal']),
                 ('april_tag_pixel_boarder', counts['april_tag_number_pixel_boarder'])):
      T.check(o.get(n) == str(v), 'tag counts')
    for n, v in (('april_tag_size_m', size), ('april_tag_gap_size_m', gap)):
      T.check(n in o, 'tag sizes')
      if n in o:
        T.check_eq(T.parse(o[n]), v, 'tag sizes')


HARNESSES = [Harness(bags(1), fs=True, bounds=B, covers=('0 calls', '1 calls')), Harness(bags(2), fs=True, bounds=B), Harness(unequal, fs=True, bounds=B),
             Harness(target, fs=True, bounds=B)]
