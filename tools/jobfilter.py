"""jobs that can reach an edited file (development aid): all jobs for core files, the operations of the file otherwise"""
USERS = {"squeeze.c": ["squeeze", "batch_norm"], "reshape.c": ["reshape", "squeeze", "batch_norm"], "slice.c": ["slice", "duplicate", "dropout", "batch_norm"], "duplicate.c": ["duplicate", "dropout"],
 "cast.c": ["cast"], "broadcast.c": ["broadcast_array", "matmul"], "factories.c": ["full", "matmul", "batch_norm"], "index_utils.c": ["get_stride", "get_all_strides", "coords_to_linidx", "linidx_to_coords", "coords_to_offset", "offset_to_coords", "conv", "conv2d", "conv3d", "pooling"],
 "dot.c": ["dot"], "matmul.c": ["matmul"], "sqrt.c": ["sqrt", "batch_norm"], "binary_op.c": ["add", "sub", "mul", "div", "dot", "batch_norm"], "relu.c": ["relu"], "sigmoid.c": ["sigmoid"], "tanh.c": ["tanh"], "softmax.c": ["softmax"],
 "dropout.c": ["dropout"], "pooling.c": ["pooling"], "conv.c": ["conv", "conv2d", "conv3d"], "batch_norm.c": ["batch_norm"]}
def pick(jobs, files):
    ok = set()
    for f in files:
        u = USERS.get(f.rsplit("/", 1)[-1])
        if u is None: return jobs
        ok |= set(u)
    return [j for j in jobs if j.split()[0] in ok]
