import ops.binary, ops.unary, ops.conv, ops.pool, ops.linalg, ops.move, ops.image, ops.detect
