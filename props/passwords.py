"""Lets password hashing use less memory, so that more runs fit in the time."""

try:
    from aiootp.keygens.passcrypt.session_init import PasscryptSession
    _SIZES = PasscryptSession.__init__.__globals__
except (ImportError, AttributeError):
    _SIZES = {}


def use_less_memory():
    """For the running process only; one MiB counts as 4 KiB."""
    if "B_TO_MB_RATIO" in _SIZES:
        _SIZES["B_TO_MB_RATIO"] = 4096
