"""The installed automatic differentiation package calls np.product, which NumPy 2 no longer has."""
import numpy as np

if not hasattr(np, "product"):
    np.product = np.prod
from auto_diff import true_np

if not hasattr(true_np, "product"):
    true_np.product = true_np.prod
