# target: pybbn/graph/util.py
class IdUtil(object):
    @staticmethod
    @lru_cache(maxsize=32768)
    def hash_string(s):
        hash_value = 0
        for c in s:
            hash_value = (hash_value << 5) - hash_value + ord(c)
            hash_value |= 0
        return hash_value
