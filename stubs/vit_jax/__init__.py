"""Stand-in for google-research/vision_transformer's `vit_jax` (not installed).

Only the names that /repo imports are provided, with the same interfaces and the
same documented semantics. It lets the monitors import and run the *real*
modules of /repo that depend on it.
"""
