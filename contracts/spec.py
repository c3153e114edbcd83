"""Ghost specification functions shared by the contracts."""
from core import *
import core

SL = 'itko.dev/internal/sunlight.'
CS = 'itko.dev/internal/ctsubmit.'
CM = 'itko.dev/internal/ctmonitor.'
U64 = 2 ** 64


def ext_bytes(idx):
    """CTExtensions holding exactly the leaf_index extension (spec)"""
    return lit(b'\0\0\5') + be(5, idx)
