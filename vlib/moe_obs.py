"""Observes what a dispatcher really does, through its public dispatch/combine only."""
import jax
import jax.numpy as jnp
import numpy as np


def capacity_reference(tokens, experts, factor, how, multiple):
  """All acceptable capacities (floating point may make the rounding ambiguous)."""
  from fractions import Fraction
  exact = Fraction(tokens) * Fraction(factor) / experts
  outs = set()
  for x in (exact, exact + Fraction(1, 10**9), exact - Fraction(1, 10**9)):
    if how == 'ceil':
      c = -((-x.numerator) // x.denominator)
    else:
      c = round(x)
    if c < 1:
      outs.add(None)
      continue
    if multiple and multiple > 0:
      c += (-c) % multiple
    outs.add(int(c))
  # When nothing is close to a rounding boundary there is only one answer.
  return outs


def observe(dispatcher, g, s):
  """Returns (D, W): D (E, G*C, G*S) dispatch operator, W (G*S, E, G*C) combine operator."""
  eye = jnp.eye(g * s).reshape(g, s, g * s)
  d = dispatcher.dispatch(eye)
  e, gc = d.shape[:2]
  basis = jnp.eye(e * gc).reshape(e, gc, e * gc)
  w = dispatcher.combine(basis)
  return d, w.reshape(g * s, e, gc)


def greedy_assignment(gates, k, capacity, batch_priority):
  """Independent model of Top-K-experts-per-item routing of one group; (S, E) bool."""
  s, e = gates.shape
  order = np.argsort(-gates, axis=1, kind='stable')[:, :k]
  items = np.arange(s)
  if batch_priority:
    items = np.argsort(-gates.max(axis=1), kind='stable')
  load = np.zeros(e, int)
  sel = np.zeros((s, e), bool)
  for j in range(k):
    for i in items:
      x = order[i, j]
      if load[x] < capacity:
        sel[i, x] = True
        load[x] += 1
  return sel
