"""A tiny model with parameters, randomness and auxiliary losses, for training loops under test."""
from typing import Optional

import flax.linen as nn
import jax
import jax.numpy as jnp


class Tiny(nn.Module):
  """Linear model on flattened images with a random perturbation when not deterministic."""
  num_classes: Optional[int] = 3
  deterministic: bool = False
  hidden: int = 4

  @nn.compact
  def __call__(self, images):
    x = jnp.reshape(images, (images.shape[0], -1))
    x = nn.Dense(self.hidden, name='Mlp')(x)
    aux = jnp.mean(jnp.square(x))
    if not self.deterministic:
      x = x + 0.1 * jax.random.normal(self.make_rng('dropout'), x.shape)
    if self.num_classes is not None:
      x = nn.Dense(self.num_classes, name='head')(x)
    return x, {'auxiliary_loss': 0.01 * aux}


class TinyMode(nn.Module):
  """Two linear representations: `mode` selects one. Randomly scaled when not deterministic."""
  num_classes: Optional[int] = 3
  deterministic: bool = False
  mode: str = 'a'
  hidden: int = 4

  @nn.compact
  def __call__(self, images):
    x = jnp.reshape(images, (images.shape[0], -1))
    both = {k: nn.Dense(self.hidden, use_bias=False, name=f'rep_{k}')(x) for k in 'ab'}
    x = both[self.mode]
    if not self.deterministic:
      x = x * jax.random.normal(self.make_rng('dropout'), x.shape)
    if self.num_classes is not None:
      x = nn.Dense(self.num_classes, name='head')(x)
    return x, {'auxiliary_loss': jnp.mean(jnp.square(both['a'] - both['b'])) * 1e-3}


class TinyMoe(nn.Module):
  """Tokens of an image routed to linear experts with the real routers."""
  num_classes: int = 5
  num_experts: int = 2
  groups: int = 1
  router: str = 'experts'
  dispatcher: str = 'einsum'
  capacity_factor: float = 1.0
  selected: int = 1
  noise: float = 0.0
  deterministic: bool = False

  @nn.compact
  def __call__(self, images):
    from vmoe import moe  # pylint: disable=import-outside-toplevel
    from vmoe.nn import routing  # pylint: disable=import-outside-toplevel
    b, h, w, c = images.shape
    x = nn.Dense(6, name='stem')(images.reshape(b, h * w, c))
    g = x.reshape(self.groups, -1, 6)
    if self.router == 'experts':
      r = routing.NoisyTopExpertsPerItemRouter(
          num_experts=self.num_experts, num_selected_experts=self.selected, noise_std=self.noise, deterministic=self.deterministic, name='Router',
          dispatcher=dict(name=self.dispatcher, batch_priority=False, capacity_factor=self.capacity_factor))
    else:
      r = routing.NoisyTopItemsPerExpertRouter(
          num_experts=self.num_experts, noise_std=self.noise, deterministic=self.deterministic, name='Router',
          dispatcher=dict(name='einsum', capacity_factor=self.capacity_factor))
    dispatcher, metrics = r(g)
    y = moe.sparse_moe_spmd(nn.Dense, has_aux=False, variable_axes={'params': 0}, split_rngs={'params': True})(features=6, name='Experts')(dispatcher, g)
    x = x + jnp.tanh(y.reshape(x.shape))
    return nn.Dense(self.num_classes, name='head')(jnp.mean(x, axis=1)), metrics


class TinyText(nn.Module):
  """Linear model on text vectors, in the place of a text transformer."""
  features: int = 4
  deterministic: bool = False

  @nn.compact
  def __call__(self, text):
    x = nn.Dense(self.features, name='Mlp')(jnp.asarray(text, jnp.float32))
    if not self.deterministic:
      x = x + 0.1 * jax.random.normal(self.make_rng('dropout'), x.shape)
    return x, {'auxiliary_loss': 0.01 * jnp.mean(jnp.square(x))}
