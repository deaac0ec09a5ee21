From bc219a09bbada4b51230aaec64da215a5f1d1a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:05 +0000
Subject: [PATCH 01/20] fix: connect a splitter to the splitter directly in
 front of it

A splitter half could be treated as idle although the next tile is a splitter
facing the same way, which the game always connects.
---
 factorio_sat/solver.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/factorio_sat/solver.py b/factorio_sat/solver.py
index e686613..4235e19 100644
--- a/factorio_sat/solver.py
+++ b/factorio_sat/solver.py
@@ -483,6 +483,13 @@ class Grid(FactorioGrid[TileTemplate, Dict[str, Any]]):
 
                 self.clauses += literals_same(tile_a.output_direction[direction], tile_b.input_direction[direction])
 
+                # A splitter always feeds a splitter directly in front of it that faces the same way
+                self.clauses.append([
+                    -tile_a.is_splitter, -tile_a.input_direction[direction],
+                    -tile_b.is_splitter, -tile_b.output_direction[direction],
+                    tile_a.output_direction[direction],
+                ])
+
                 # Handles special splitter output case
                 self.clauses += implies([tile_a.input_direction[direction], tile_a.is_splitter, -tile_b.is_splitter], [
                     [-tile_b.input_direction[direction.next], -tile_b.output_direction[direction.next]],
-- 
2.43.0


From 578286cabcd8ca17cf59a349d1aa460d77821b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:14 +0000
Subject: [PATCH 02/20] fix: make_block honours --underground-length without
 --single-loop

---
 factorio_sat/make_block.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factorio_sat/make_block.py b/factorio_sat/make_block.py
index 243a454..1c0cff9 100644
--- a/factorio_sat/make_block.py
+++ b/factorio_sat/make_block.py
@@ -86,7 +86,7 @@ def main():
     if args.single_loop:
         grid = solver.Grid(args.width, args.height, args.width * args.height, args.underground_length, edge_mode=edge_mode)
     else:
-        grid = solver.Grid(args.width, args.height, 1, edge_mode=edge_mode)
+        grid = solver.Grid(args.width, args.height, 1, args.underground_length, edge_mode=edge_mode)
 
     grid.prevent_intersection()
     grid.prevent_bad_undergrounding()
-- 
2.43.0


From b5b8fb876d45d3e50537da9eb9e14c244c3091dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:14 +0000
Subject: [PATCH 03/20] fix: make_block --no-parallel no longer crashes

---
 factorio_sat/make_block.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/factorio_sat/make_block.py b/factorio_sat/make_block.py
index 1c0cff9..0f25d67 100644
--- a/factorio_sat/make_block.py
+++ b/factorio_sat/make_block.py
@@ -56,10 +56,9 @@ def prevent_parallel(grid: solver.Grid):
                 if tile_b is None:
                     continue
 
-                grid.clauses.append([-tile_a.underground[direction + 0], -tile_b.underground[direction + 0]])
-                grid.clauses.append([-tile_a.underground[direction + 2], -tile_b.underground[direction + 0]])
-                grid.clauses.append([-tile_a.underground[direction + 0], -tile_b.underground[direction + 2]])
-                grid.clauses.append([-tile_a.underground[direction + 2], -tile_b.underground[direction + 2]])
+                for direction_a in (direction, direction.reverse):
+                    for direction_b in (direction, direction.reverse):
+                        grid.clauses.append([-tile_a.underground[direction_a], -tile_b.underground[direction_b]])
 
 
 def main():
-- 
2.43.0


From a99e2e26ca8a765441d67fa3ea160e98ae8d6b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:14 +0000
Subject: [PATCH 04/20] fix: make_block --tile --single-loop finds loops that
 enter the first tile across the seam or from underground

---
 factorio_sat/make_block.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/factorio_sat/make_block.py b/factorio_sat/make_block.py
index 0f25d67..a6a2a85 100644
--- a/factorio_sat/make_block.py
+++ b/factorio_sat/make_block.py
@@ -22,7 +22,7 @@ def ensure_loop_length(grid: solver.Grid):
             for direction in Direction:
                 dx, dy = direction.vec
                 tile_b = grid.get_tile_instance_offset(x, y, dx, dy)
-                x1, y1 = x + dx, y + dy
+                x1, y1 = (x + dx) % grid.width, (y + dy) % grid.height
 
                 if tile_b is None:
                     continue
@@ -40,10 +40,13 @@ def ensure_loop_length(grid: solver.Grid):
                     grid.clauses += implies([tile_a.output_direction[direction]], increment_number(tile_a.colour, tile_b.colour))
 
                 grid.clauses += implies([tile_a.input_direction[direction], *invert_components(tile_a.output_direction)],
-                                        increment_number(tile_a.colour, colour_b))
+                                        set_numbers_equal(tile_a.colour, colour_b))
 
-                grid.clauses += implies([*invert_components(tile_b.input_direction), tile_b.output_direction[direction]],
-                                        set_numbers_equal(colour_a, tile_b.colour))
+                if x1 == 0 and y1 == 0:
+                    exit_clauses = set_number(grid.colours - 1, colour_a)
+                else:
+                    exit_clauses = increment_number(colour_a, tile_b.colour)
+                grid.clauses += implies([*invert_components(tile_b.input_direction), tile_b.output_direction[direction]], exit_clauses)
                 grid.clauses += implies([tile_a.underground[direction], tile_b.underground[direction]], set_numbers_equal(colour_a, colour_b))
 
 
-- 
2.43.0


From 7b3277404cfa2a92ec8951cbe32cffc340cba269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:14 +0000
Subject: [PATCH 05/20] fix: setup_balancer_ends_with_offsets colours the input
 column

---
 factorio_sat/belt_balancer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factorio_sat/belt_balancer.py b/factorio_sat/belt_balancer.py
index 474afcc..d098ebb 100644
--- a/factorio_sat/belt_balancer.py
+++ b/factorio_sat/belt_balancer.py
@@ -26,7 +26,7 @@ def setup_balancer_ends_with_offsets(grid, network, start_offset: int, end_offse
 
     for y in range(start_offset, start_offset + input_count):
         grid.set_tile(0, y, Belt(Direction.RIGHT, Direction.RIGHT))
-        grid.set_colour(grid.width - 1, y, input_colour)
+        grid.set_colour(0, y, input_colour)
 
     for y in range(start_offset + input_count, grid.height):
         grid.set_tile(0, y, EmptyTile())
-- 
2.43.0


From 87bb36faf17dd37c1424997e569c8ba9d74913eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:14 +0000
Subject: [PATCH 06/20] fix: balancer inputs and outputs may sit at the last
 offset, and are always belts

---
 factorio_sat/belt_balancer.py | 60 +++++++++++++++--------------------
 1 file changed, 26 insertions(+), 34 deletions(-)

diff --git a/factorio_sat/belt_balancer.py b/factorio_sat/belt_balancer.py
index d098ebb..1621f81 100644
--- a/factorio_sat/belt_balancer.py
+++ b/factorio_sat/belt_balancer.py
@@ -44,45 +44,37 @@ def setup_balancer_ends_with_offsets(grid, network, start_offset: int, end_offse
 
 def setup_balancer_input(grid: Grid, tiles: Sequence[TileTemplate], direction: int, count: int, rest_empty: bool = True):
     assert count <= len(tiles)
-    offsets = [grid.allocate_variable() for _ in range(len(tiles) - count)]
-
-    if len(offsets) == 0:
-        for tile in tiles:
-            grid.clauses += [[tile.input_direction[direction]]]
-    else:
-        grid.clauses += quadratic_one(offsets)
-        for di, literal in enumerate(offsets):
-            consequences = []
-            for i, tile in enumerate(tiles):
-                if i in range(di, di + count):
-                    consequences += [[tile.input_direction[direction]], [tile.is_belt]]
-                elif rest_empty:
-                    consequences += set_all_false(tile.all_direction)
-                else:
-                    consequences += [[-tile.input_direction[direction]], [tile.is_belt]]
-            grid.clauses += implies([literal], consequences)
+    offsets = [grid.allocate_variable() for _ in range(len(tiles) - count + 1)]
+
+    grid.clauses += quadratic_one(offsets)
+    for di, literal in enumerate(offsets):
+        consequences = []
+        for i, tile in enumerate(tiles):
+            if i in range(di, di + count):
+                consequences += [[tile.input_direction[direction]], [tile.is_belt]]
+            elif rest_empty:
+                consequences += set_all_false(tile.all_direction)
+            else:
+                consequences += [[-tile.input_direction[direction]], [tile.is_belt]]
+        grid.clauses += implies([literal], consequences)
     return offsets
 
 
 def setup_balancer_output(grid: Grid, tiles: Sequence[TileTemplate], direction: int, count: int, rest_empty: bool = True):
     assert count <= len(tiles)
-    offsets = [grid.allocate_variable() for _ in range(len(tiles) - count)]
-
-    if len(offsets) == 0:
-        for tile in tiles:
-            grid.clauses += [[tile.output_direction[direction]], [tile.is_belt]]
-    else:
-        grid.clauses += quadratic_one(offsets)
-        for di, literal in enumerate(offsets):
-            consequences = []
-            for i, tile in enumerate(tiles):
-                if i in range(di, di + count):
-                    consequences += [[tile.output_direction[direction]], [tile.is_belt]]
-                elif rest_empty:
-                    consequences += set_all_false(tile.all_direction)
-                else:
-                    consequences += [[-tile.output_direction[direction]]]
-            grid.clauses += implies([literal], consequences)
+    offsets = [grid.allocate_variable() for _ in range(len(tiles) - count + 1)]
+
+    grid.clauses += quadratic_one(offsets)
+    for di, literal in enumerate(offsets):
+        consequences = []
+        for i, tile in enumerate(tiles):
+            if i in range(di, di + count):
+                consequences += [[tile.output_direction[direction]], [tile.is_belt]]
+            elif rest_empty:
+                consequences += set_all_false(tile.all_direction)
+            else:
+                consequences += [[-tile.output_direction[direction]]]
+        grid.clauses += implies([literal], consequences)
     return offsets
 
 
-- 
2.43.0


From 0749f95fef7942e968d62b25345087291573e48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:14 +0000
Subject: [PATCH 07/20] fix: --use-ends and --180 do not force the other tiles
 of the input column to be belts

---
 factorio_sat/belt_balancer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factorio_sat/belt_balancer.py b/factorio_sat/belt_balancer.py
index 1621f81..14769de 100644
--- a/factorio_sat/belt_balancer.py
+++ b/factorio_sat/belt_balancer.py
@@ -55,7 +55,7 @@ def setup_balancer_input(grid: Grid, tiles: Sequence[TileTemplate], direction: i
             elif rest_empty:
                 consequences += set_all_false(tile.all_direction)
             else:
-                consequences += [[-tile.input_direction[direction]], [tile.is_belt]]
+                consequences += [[-tile.input_direction[direction]]]
         grid.clauses += implies([literal], consequences)
     return offsets
 
-- 
2.43.0


From ad446ea6a32953412770991f109933d7202a1b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:14 +0000
Subject: [PATCH 08/20] fix: logarithmic_amo allows no literal to be true

---
 factorio_sat/cardinality.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factorio_sat/cardinality.py b/factorio_sat/cardinality.py
index c5860b5..1852d31 100644
--- a/factorio_sat/cardinality.py
+++ b/factorio_sat/cardinality.py
@@ -18,7 +18,7 @@ def quadratic_amo(literals: List[LiteralType], _: Optional[AllocatorType] = None
 
 def logarithmic_amo(literals: List[LiteralType], allocator: AllocatorType) -> ClauseList:
     location_literals = [allocator() for _ in range(bin_length(len(literals)))]
-    clauses = [list(literals)]
+    clauses = []
     for i, lit in enumerate(literals):
         clauses += implies([lit], set_number(i, location_literals))
     return clauses
-- 
2.43.0


From 6d6092f22e65841776362fe0a8f723b0e305f358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:14 +0000
Subject: [PATCH 09/20] fix: iterate_tile_blocks applies vertical limits to the
 vertical extent

---
 factorio_sat/template.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/factorio_sat/template.py b/factorio_sat/template.py
index e7997a5..16f1601 100644
--- a/factorio_sat/template.py
+++ b/factorio_sat/template.py
@@ -339,7 +339,7 @@ class BaseGrid(Generic[InstanceType, ParsedType]):
                 if min_y is not None:
                     if y < min_y:
                         continue
-                    if x + max_y_offset < min_y:
+                    if y + max_y_offset < min_y:
                         continue
                 if max_x is not None:
                     if x > max_x:
@@ -349,7 +349,7 @@ class BaseGrid(Generic[InstanceType, ParsedType]):
                 if max_y is not None:
                     if y > max_y:
                         continue
-                    if x + max_y_offset > max_y:
+                    if y + max_y_offset > max_y:
                         continue
 
                 yield np.frompyfunc(get_tile, 2, 1)(*np.ogrid[0:row_count, 0:column_count])
-- 
2.43.0


From 588188a4e566a9f389dfef39b0824d1a4d513337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:14 +0000
Subject: [PATCH 10/20] fix: importing a blueprint with two belts facing each
 other

---
 factorio_sat/blueprint.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/factorio_sat/blueprint.py b/factorio_sat/blueprint.py
index 649d81e..4c8ed84 100644
--- a/factorio_sat/blueprint.py
+++ b/factorio_sat/blueprint.py
@@ -118,6 +118,9 @@ def resolve_belt_input_directions(tiles):
 
         input_direction = None
         for direction in Direction:
+            if direction == tile.output_direction.reverse:
+                continue  # A belt cannot be fed from the side it outputs to
+
             x1 = x - direction.dx
             y1 = y - direction.dy
             if x1 < 0 or x1 >= tiles.shape[1] or y1 < 0 or y1 >= tiles.shape[0]:
-- 
2.43.0


From 5dc6dcda47c50600694cdf498dc45a357e8a1792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:14 +0000
Subject: [PATCH 11/20] fix: calculate_optimal query --export-blueprints passes
 a belt level

---
 factorio_sat/calculate_optimal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/factorio_sat/calculate_optimal.py b/factorio_sat/calculate_optimal.py
index fbd63b3..34dea16 100644
--- a/factorio_sat/calculate_optimal.py
+++ b/factorio_sat/calculate_optimal.py
@@ -294,7 +294,8 @@ def main():
                 for i, row in enumerate(tiles):
                     for j, entry in enumerate(row):
                         tiles[i, j] = blueprint.read_tile(entry)
-                return blueprint.encode_blueprint(blueprint.make_blueprint(tiles, label, get_belt_level(args.underground_length)))
+                level = blueprint.TransportBeltLevel[get_belt_level(args.underground_length).upper()]
+                return blueprint.encode_blueprint(blueprint.make_blueprint(tiles, label, level))
         else:
             def encode_solution(solution, _):
                 return json.dumps(solution)
-- 
2.43.0


From 46761fe589f2c1b6be0e3be7e241cdeb7de5199c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:14 +0000
Subject: [PATCH 12/20] fix: calculate_optimal replaces its database atomically

---
 factorio_sat/calculate_optimal.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/factorio_sat/calculate_optimal.py b/factorio_sat/calculate_optimal.py
index 34dea16..9134193 100644
--- a/factorio_sat/calculate_optimal.py
+++ b/factorio_sat/calculate_optimal.py
@@ -283,8 +283,10 @@ def main():
         data = {}
         for store in stores:
             data[store.network_name] = store.to_json()
-        with open(result_file, 'w') as f:
+        temporary_file = result_file + '.tmp'
+        with open(temporary_file, 'w') as f:
             json.dump(data, f)
+        os.replace(temporary_file, result_file)
 
     if args.mode == 'query':
         if args.export_blueprints:
-- 
2.43.0


From b721e39748acba2154221ad638a56303ecc2fb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:14 +0000
Subject: [PATCH 13/20] fix: parse_network accepts an underground entrance on
 the top row

---
 factorio_sat/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factorio_sat/network.py b/factorio_sat/network.py
index b8da5cf..b6b1e4d 100644
--- a/factorio_sat/network.py
+++ b/factorio_sat/network.py
@@ -549,7 +549,7 @@ def parse_network(tiles, assume_edge_splitter_are_connected=False):
                     dx, dy = tile.direction.vec
                     while True:
                         pos = pos[0] - dx, pos[1] - dy
-                        assert pos[0] >= 0 and pos[0] < tiles.shape[0] and pos[1] >= 1 and pos[1] < tiles.shape[1]
+                        assert pos[0] >= 0 and pos[0] < tiles.shape[0] and pos[1] >= 0 and pos[1] < tiles.shape[1]
 
                         current_tile = tiles[pos]
                         assert current_tile != UndergroundBelt(tile.direction, False)
-- 
2.43.0


From 84ca9f14c132a56e0a0f99def6c74abafcc2d727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:14 +0000
Subject: [PATCH 14/20] fix: parse_network treats tiles without belt
 connections as unconnected

---
 factorio_sat/network.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/factorio_sat/network.py b/factorio_sat/network.py
index b6b1e4d..de841e3 100644
--- a/factorio_sat/network.py
+++ b/factorio_sat/network.py
@@ -9,7 +9,7 @@ from typing import Tuple
 import numpy as np
 from pysat.solvers import Solver
 
-from .tile import Belt, EmptyTile, FillerTile, Splitter, UndergroundBelt
+from .tile import Belt, BeltConnectedTile, Splitter, UndergroundBelt
 from .util import bin_length, get_popcount, read_number, set_not_number
 from . import blueprint
 
@@ -565,7 +565,7 @@ def parse_network(tiles, assume_edge_splitter_are_connected=False):
             return
 
         tile = tiles[pos]
-        if tile == EmptyTile():
+        if not isinstance(tile, BeltConnectedTile):
             return
 
         if isinstance(tile, Splitter):
@@ -587,7 +587,7 @@ def parse_network(tiles, assume_edge_splitter_are_connected=False):
             if colour_mapping[x, y] is not None:
                 continue
 
-            if tile == EmptyTile() or tile == FillerTile():
+            if not isinstance(tile, BeltConnectedTile):
                 colour_mapping[x, y] = -1
                 continue
 
@@ -620,7 +620,7 @@ def parse_network(tiles, assume_edge_splitter_are_connected=False):
                     continue
 
                 offset_tile = tiles[pos]
-                if offset_tile is None:
+                if not isinstance(offset_tile, BeltConnectedTile):
                     node[-1].append(None)
                     continue
 
-- 
2.43.0


From cff56c8d427e5ee141b3208854eb0e5af2f22d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:11 +0000
Subject: [PATCH 15/20] fix: prevent_belt_parallel_splitter only rejects
 splitters facing across the belt

---
 factorio_sat/optimisations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/factorio_sat/optimisations.py b/factorio_sat/optimisations.py
index d3bdb64..3d40d86 100644
--- a/factorio_sat/optimisations.py
+++ b/factorio_sat/optimisations.py
@@ -533,8 +533,8 @@ def prevent_belt_parallel_splitter(grid: Grid):
 
                         block[1, 0].output_direction[across_direction],
 
-                        block[1, 1].is_splitter,
-                        set_literal(block[1, 1].is_splitter_head, is_head),
+                        block[1, 0].is_splitter,
+                        set_literal(block[1, 0].is_splitter_head, not is_head),
                     ]))
 
 
-- 
2.43.0


From b206879c2e79bda738aa330e0b912649eb5ed4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:05 +0000
Subject: [PATCH 16/20] fix: break_vertical_symmetry accepts grids one tile
 high

---
 factorio_sat/optimisations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factorio_sat/optimisations.py b/factorio_sat/optimisations.py
index 3d40d86..2df5ee8 100644
--- a/factorio_sat/optimisations.py
+++ b/factorio_sat/optimisations.py
@@ -412,7 +412,7 @@ def break_vertical_symmetry(grid: Grid):
     top: List[LiteralType] = []
     bot: List[LiteralType] = []
 
-    for dy in range(max(2, grid.height // 2)):
+    for dy in range(min(grid.height, max(2, grid.height // 2))):
         for x in range(grid.width):
             top_tile = grid.get_tile_instance(x, dy)
             bot_tile = grid.get_tile_instance(x, grid.height - 1 - dy)
-- 
2.43.0


From 8a228bd7b340b8e87166f22deb2b12d30d7a2626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:06 +0000
Subject: [PATCH 17/20] fix: calculate_optimal compute keeps results of
 networks that are not in the network folder

---
 factorio_sat/calculate_optimal.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/factorio_sat/calculate_optimal.py b/factorio_sat/calculate_optimal.py
index 9134193..8970a7d 100644
--- a/factorio_sat/calculate_optimal.py
+++ b/factorio_sat/calculate_optimal.py
@@ -268,11 +268,12 @@ def main():
     for file in os.listdir(base_path):
         stores.append(NetworkSolutionStore(os.path.join(base_path, file)))
 
+    database = {}
     try:
         with open(result_file) as f:
-            data = json.load(f)
+            database = json.load(f)
         for store in stores:
-            item = data.get(store.network_name)
+            item = database.get(store.network_name)
             if item is None:
                 continue
             store.from_json(item)
@@ -280,7 +281,7 @@ def main():
         pass
 
     def save_progress():
-        data = {}
+        data = dict(database)  # Keeps results of networks that are not in the network folder
         for store in stores:
             data[store.network_name] = store.to_json()
         temporary_file = result_file + '.tmp'
-- 
2.43.0


From 3f8998783c2a7ee137611c542cf2f7db49d20bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:23 +0000
Subject: [PATCH 18/20] fix: run_command_solver rejects a truncated solution

---
 factorio_sat/template.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factorio_sat/template.py b/factorio_sat/template.py
index 16f1601..4e40429 100644
--- a/factorio_sat/template.py
+++ b/factorio_sat/template.py
@@ -63,7 +63,7 @@ def run_command_solver(cmd: str, clauses: ClauseList) -> Optional[List[LiteralTy
         while True:
             line = result.readline()
             if len(line) == 0:
-                break
+                raise RuntimeError('Solver output ended before the end of the solution')
             if line.startswith('c'):
                 print(line, file=sys.stderr, end='')
                 continue
-- 
2.43.0


From 8224fe1660fbf1f75611258a549c0c53239f2b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:25 +0000
Subject: [PATCH 19/20] fix: layouts with inserters can be rendered

---
 factorio_sat/render.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/factorio_sat/render.py b/factorio_sat/render.py
index 34fdd2e..fe79f9e 100644
--- a/factorio_sat/render.py
+++ b/factorio_sat/render.py
@@ -153,7 +153,7 @@ def render_tile(tile: BaseTile, animation: int, layer: RenderLayer):
         if layer == RenderLayer.BOTTOM:
             glPushMatrix()
             glTranslatef(-(8 + 1.5)/32, (8 - (7.5 - 1))/32, 0)
-            tilemaps.INSERTER_PLATFORM[tile.type].render((1 - tile.direction) % 4, 0)
+            tilemaps.INSERTER_PLATFORM[tile.type].render((1 - tile.direction.value) % 4, 0)
             glPopMatrix()
         elif layer == RenderLayer.TOP:
             # Good enough
@@ -176,7 +176,7 @@ def render_tile(tile: BaseTile, animation: int, layer: RenderLayer):
             if t < 0:
                 interior_angle *= -1
 
-            base_angle = 90 * (2 - tile.direction) + interior_angle
+            base_angle = 90 * (2 - tile.direction.value) + interior_angle
 
             glPushMatrix()
 
-- 
2.43.0


From 171162ba8a5af3fb4820189c09766fe7c1de9238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:25 +0000
Subject: [PATCH 20/20] fix: --show-raw looks up list elements inside the named
 attribute

---
 factorio_sat/render.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factorio_sat/render.py b/factorio_sat/render.py
index fe79f9e..db63c1c 100644
--- a/factorio_sat/render.py
+++ b/factorio_sat/render.py
@@ -350,7 +350,7 @@ def render_attributes(solution, font, names: List[str]):
                 sub_item = item
                 for piece in name.split('.'):
                     try:
-                        sub_item = item[int(piece)]
+                        sub_item = sub_item[int(piece)]
                         continue
                     except ValueError:
                         pass
-- 
2.43.0

