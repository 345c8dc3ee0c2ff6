"""Property id -> module under props/."""
MODULE = {**{f"C{i:02d}": "algebra" for i in range(1, 6)},
          **{f"C{i:02d}": "blocks" for i in range(6, 9)},
          **{f"C{i:02d}": "codes" for i in range(9, 13)}}
MODULE.update({f"C{i:02d}": "conv" for i in range(13, 17)})
MODULE.update({"C17": "modem", "C18": "modem"})
MODULE.update({"C19": "coding", "C20": "coding", "C21": "coding"})
MODULE.update({f"C{i}": "signal" for i in range(22, 28)})
MODULE["C28"] = "info"
MODULE.update({"C29": "soft", "C30": "soft"})
