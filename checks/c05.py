from opcheck import OpCheck
import ops.linalg


class CHECK(OpCheck):
    families = ("C05",)
    quick_n = 4000
    thorough_n = 100000
