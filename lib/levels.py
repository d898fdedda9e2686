from collections import defaultdict
LEVEL = defaultdict(lambda: "model_checking")
