"""What a figure of accuracies shows, read from its artists."""
import numpy as np


def shown(fig):
    """List of one dictionary per set of axes."""
    out = []
    for ax in fig.axes:
        spec = ax.get_subplotspec()
        d = {'at': None if spec is None else (spec.rowspan.start, spec.colspan.start), 'xlim': ax.get_xlim(),
             'ylim': ax.get_ylim(), 'xlabel': ax.get_xlabel(), 'images': [], 'lines': [], 'areas': []}
        for im in ax.images:
            d['images'].append((np.array(im.get_array()), tuple(im.get_extent()), im.origin, tuple(im.get_clim())))
        for line in ax.lines:
            d['lines'].append(np.array(line.get_xydata()))
        for c in ax.collections:
            d['areas'] += [np.array(p.vertices) for p in c.get_paths()]
        out.append(d)
    return out


def value(image, x, y):
    """Value shown by an image at a point."""
    arr, (left, right, bottom, top), origin, _ = image
    if origin == 'upper':
        arr = arr[::-1]
    col = int((x - left) / (right - left) * arr.shape[1])
    row = int((y - bottom) / (top - bottom) * arr.shape[0])
    return arr[row, col] if 0 <= row < arr.shape[0] and 0 <= col < arr.shape[1] else np.nan
