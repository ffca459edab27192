"""Writes pretrained checkpoints in the formats from which a train state can be initialized."""
import os
import shutil


def write(kind, path, arrays, num_shards=2, place=lambda x: x):
  """Writes `arrays` (flat names, '/') and returns the arguments of the initialization."""
  # pylint: disable=import-outside-toplevel
  import flax
  import numpy as np
  tree = lambda a: flax.traverse_util.unflatten_dict(a, sep='/')
  if kind == 'vmoe':
    from vmoe import checkpoints
    import jax
    checkpoints.save_checkpoint_partitioned(path, tree({k: jax.device_put(place(v)) for k, v in arrays.items()}), num_shards=num_shards).get()
    return dict(name='initialize_from_vmoe', prefix=path)
  if kind == 'vit':
    np.savez(path + '.npz', **arrays)
    return dict(name='initialize_from_vit', filepath=path + '.npz')
  import orbax.checkpoint as ocp  # The format with an aggregate file.
  ocp.Checkpointer(ocp.PyTreeCheckpointHandler(use_ocdbt=False)).save(path, tree(arrays))
  for f in ('_METADATA', '_sharding', 'array_metadatas'):
    p = os.path.join(path, f)
    if os.path.isdir(p):
      shutil.rmtree(p)
    elif os.path.exists(p):
      os.remove(p)
  with open(os.path.join(path, 'checkpoint'), 'wb') as fp:
    fp.write(flax.serialization.msgpack_serialize(tree({k: 'PLACEHOLDER://' + k.replace('/', '.') for k in arrays})))
  return dict(name='initialize_from_orbax', directory=path)
