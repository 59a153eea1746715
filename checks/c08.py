from opcheck import OpCheck
import ops.detect


class CHECK(OpCheck):
    families = ("C08",)
    quick_n = 5000
    thorough_n = 8000
