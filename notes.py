NOTE = {f"C{i:02d}": ("other", BOUND + "see DESIGN.md") for i in range(1, 21)}
