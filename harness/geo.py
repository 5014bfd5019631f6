# -*- coding: utf-8 -*-
"""Independent sphere formulas (3-d vectors, not the haversine the code uses)."""
import math

R = 6378135.0


def vec(lat, lon):
  a, b = math.radians(lat), math.radians(lon)
  return (math.cos(a) * math.cos(b), math.cos(a) * math.sin(b), math.sin(a))


def dist(lat1, lon1, lat2, lon2):
  """Great-circle distance in metres."""
  a, b = vec(lat1, lon1), vec(lat2, lon2)
  cx = a[1] * b[2] - a[2] * b[1]
  cy = a[2] * b[0] - a[0] * b[2]
  cz = a[0] * b[1] - a[1] * b[0]
  cross = math.sqrt(cx * cx + cy * cy + cz * cz)
  dot = a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
  return R * math.atan2(cross, dot)


def offset(lat, lon, north, east):
  """Coordinates about `north`, `east` metres away (small distances)."""
  return (lat + math.degrees(north / R),
          lon + math.degrees(east / (R * math.cos(math.radians(lat)))))
