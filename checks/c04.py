from opcheck import OpCheck
import ops.pool


class CHECK(OpCheck):
    families = ("C04",)
    quick_n = 4000
    thorough_n = 100000
