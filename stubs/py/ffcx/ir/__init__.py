from . import representation, representationutils, elementtables  # noqa
