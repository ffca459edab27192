"""Small TFDS datasets written to a scratch directory, and a switchable process topology.

TFDS itself is a boundary of the code under test: `tfds.builder` is replaced by a function which returns
the builders prepared here (there is no network to download anything).
"""
import os

_BUILDERS = {}
TOPOLOGY = dict(index=0, count=1, devices=1)


def install_builders():
  """Makes tfds.builder return the datasets prepared by `make`. Call it before importing vmoe."""
  import tensorflow_datasets as tfds  # pylint: disable=import-outside-toplevel
  import tensorflow_datasets.public_api as tfds_api  # pylint: disable=import-outside-toplevel
  def builder(name, *args, **kwargs):
    data_dir = kwargs.get('data_dir', args[0] if args else None)
    return _BUILDERS.get((name, str(data_dir)), _BUILDERS[name])
  tfds.builder = builder
  tfds_api.builder = builder
  tfds.builder_from_directory = lambda d, *a, **k: _BUILDERS[os.path.basename(str(d))]
  tfds_api.builder_from_directory = tfds.builder_from_directory


def install_topology():
  """Lets one process play any of the processes of a job. Call it before importing vmoe."""
  import jax  # pylint: disable=import-outside-toplevel
  jax.process_index = lambda *a, **k: TOPOLOGY['index']
  jax.process_count = lambda *a, **k: TOPOLOGY['count']
  jax.device_count = lambda *a, **k: TOPOLOGY['devices']


def make(name, splits, data_dir, num_shards=3, num_classes=7, image_shape=(4, 5, 3), offset=1, label_key='labels', labels=None, same=False, order=None):
  """Writes a dataset; `splits` maps names to sizes. Ids are unique over splits, starting at `offset` (all equal with `same`)."""
  import numpy as np  # pylint: disable=import-outside-toplevel
  import tensorflow as tf  # pylint: disable=import-outside-toplevel
  import tensorflow_datasets as tfds  # pylint: disable=import-outside-toplevel
  tfds.disable_progress_bar()
  sig = {'image': tf.TensorSpec(image_shape, tf.uint8), 'id': tf.TensorSpec((), tf.int64), label_key: tf.TensorSpec((), tf.int64)}

  def dataset(start, n):
    ids = np.arange(start, start + n) if not same else np.full((n,), offset)
    ids = ids if order is None else ids[np.asarray(order)]
    images = np.stack([image_of(i, image_shape) for i in ids]) if n else np.zeros((0,) + image_shape, np.uint8)
    ds = tf.data.Dataset.from_tensor_slices({'image': images, 'id': ids.astype(np.int64), label_key: (ids % num_classes if labels is None else np.asarray(labels)[ids - offset]).astype(np.int64)})
    assert ds.element_spec == sig, ds.element_spec
    return ds

  split_datasets, start, ids = {}, offset, {}
  for k, n in splits.items():
    split_datasets[k] = dataset(start, n)
    ids[k] = list(range(start, start + n))
    start += n
  features = tfds.features.FeaturesDict({
      'image': tfds.features.Image(shape=(None, None, 3), encoding_format='png'),
      'id': tfds.features.Scalar(tf.int64), label_key: tfds.features.ClassLabel(num_classes=num_classes)})
  b = tfds.dataset_builders.store_as_tfds_dataset(
      name=name, version='1.0.0', features=features, split_datasets=split_datasets, data_dir=data_dir,
      download_config=tfds.download.DownloadConfig(num_shards=min(num_shards, *splits.values())))
  _BUILDERS[name] = _BUILDERS[(name, str(data_dir))] = b
  return b


def image_of(i, shape):
  import numpy as np  # pylint: disable=import-outside-toplevel
  return np.random.default_rng(int(i) + 12345).integers(0, 256, size=shape).astype(np.uint8)


def ids_of(name, split):
  """The ids of a split, read directly."""
  return [int(x['id']) for x in _BUILDERS[name].as_dataset(split=split).as_numpy_iterator()]
