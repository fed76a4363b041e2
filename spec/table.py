"""What fastkml has to map: class, attribute, kind, XML name, namespaces, classes, default.

Frozen from the KML reference and the OGC schema; not read from the code under check.
kinds: text/ntext/atext (sub-element, node text, attribute), bool, int, aint, float, afloat,
enum, aenum, dt, dtlist, coordlist, coordinates, obj, objlist.
"""
CLASSES = {
    'fastkml.atom.Author': dict(tag='author', nsid='atom',
        mro=['fastkml.atom.Author', 'fastkml.atom._Person', 'fastkml.atom._AtomObject', 'fastkml.base._XMLObject'],
        args=['name', 'uri', 'email']),
    'fastkml.atom.Contributor': dict(tag='contributor', nsid='atom',
        mro=['fastkml.atom.Contributor', 'fastkml.atom._Person', 'fastkml.atom._AtomObject', 'fastkml.base._XMLObject'],
        args=['name', 'uri', 'email']),
    'fastkml.atom.Link': dict(tag='link', nsid='atom',
        mro=['fastkml.atom.Link', 'fastkml.atom._AtomObject', 'fastkml.base._XMLObject'],
        args=['href', 'rel', 'type', 'hreflang', 'title', 'length']),
    'fastkml.atom._AtomObject': dict(tag='_atomobject', nsid='atom',
        mro=['fastkml.atom._AtomObject', 'fastkml.base._XMLObject'],
        args=[]),
    'fastkml.atom._Person': dict(tag='_person', nsid='atom',
        mro=['fastkml.atom._Person', 'fastkml.atom._AtomObject', 'fastkml.base._XMLObject'],
        args=['name', 'uri', 'email']),
    'fastkml.containers.Document': dict(tag='Document', nsid='kml',
        mro=['fastkml.containers.Document', 'fastkml.containers._Container', 'fastkml.features._Feature', 'fastkml.mixins.TimeMixin', 'fastkml.kml_base._BaseObject', 'fastkml.base._XMLObject'],
        args=['id', 'target_id', 'name', 'visibility', 'isopen', 'atom_link', 'atom_author', 'address', 'phone_number', 'snippet', 'description', 'view', 'times', 'style_url', 'styles', 'region', 'extended_data', 'features', 'schemata']),
    'fastkml.containers.Folder': dict(tag='Folder', nsid='kml',
        mro=['fastkml.containers.Folder', 'fastkml.containers._Container', 'fastkml.features._Feature', 'fastkml.mixins.TimeMixin', 'fastkml.kml_base._BaseObject', 'fastkml.base._XMLObject'],
        args=['id', 'target_id', 'name', 'visibility', 'isopen', 'atom_link', 'atom_author', 'address', 'phone_number', 'snippet', 'description', 'view', 'times', 'style_url', 'styles', 'region', 'extended_data', 'features']),
    'fastkml.containers._Container': dict(tag='_Container', nsid='kml',
        mro=['fastkml.containers._Container', 'fastkml.features._Feature', 'fastkml.mixins.TimeMixin', 'fastkml.kml_base._BaseObject', 'fastkml.base._XMLObject'],
        args=['id', 'target_id', 'name', 'visibility', 'isopen', 'atom_link', 'atom_author', 'address', 'phone_number', 'snippet', 'description', 'view', 'times', 'style_url', 'styles', 'region', 'extended_data', 'features']),
    'fastkml.data.Data': dict(tag='Data', nsid='kml',
        mro=['fastkml.data.Data', 'fastkml.kml_base._BaseObject', 'fastkml.base._XMLObject'],
        args=['id', 'target_id', 'name', 'value', 'display_name']),
    'fastkml.data.ExtendedData': dict(tag='ExtendedData', nsid='kml',
        mro=['fastkml.data.ExtendedData', 'fastkml.base._XMLObject'],
        args=['elements']),
    'fastkml.data.Schema': dict(tag='Schema', nsid='kml',
        mro=['fastkml.data.Schema', 'fastkml.base._XMLObject'],
        args=['id', 'name', 'fields']),
    'fastkml.data.SchemaData': dict(tag='SchemaData', nsid='kml',
        mro=['fastkml.data.SchemaData', 'fastkml.kml_base._BaseObject', 'fastkml.base._XMLObject'],
        args=['id', 'target_id', 'schema_url', 'data']),
    'fastkml.data.SimpleData': dict(tag='SimpleData', nsid='kml',
        mro=['fastkml.data.SimpleData', 'fastkml.base._XMLObject'],
        args=['name', 'value']),
    'fastkml.data.SimpleField': dict(tag='SimpleField', nsid='kml',
        mro=['fastkml.data.SimpleField', 'fastkml.base._XMLObject'],
        args=['name', 'type_', 'display_name']),
    'fastkml.features.NetworkLink': dict(tag='NetworkLink', nsid='kml',
        mro=['fastkml.features.NetworkLink', 'fastkml.features._Feature', 'fastkml.mixins.TimeMixin', 'fastkml.kml_base._BaseObject', 'fastkml.base._XMLObject'],
        args=['id', 'target_id', 'name', 'visibility', 'isopen', 'atom_link', 'atom_author', 'address', 'phone_number', 'snippet', 'description', 'view', 'times', 'style_url', 'styles', 'region', 'extended_data', 'refresh_visibility', 'fly_to_view', 'link']),
    'fastkml.features.Placemark': dict(tag='Placemark', nsid='kml',
        mro=['fastkml.features.Placemark', 'fastkml.features._Feature', 'fastkml.mixins.TimeMixin', 'fastkml.kml_base._BaseObject', 'fastkml.base._XMLObject'],
        args=['id', 'target_id', 'name', 'visibility', 'isopen', 'atom_link', 'atom_author', 'address', 'phone_number', 'snippet', 'description', 'view', 'times', 'style_url', 'styles', 'region', 'extended_data', 'kml_geometry', 'geometry']),
    'fastkml.features.Snippet': dict(tag='Snippet', nsid='kml',
        mro=['fastkml.features.Snippet', 'fastkml.base._XMLObject'],
        args=['text', 'max_lines']),
    'fastkml.features._Feature': dict(tag='_Feature', nsid='kml',
        mro=['fastkml.features._Feature', 'fastkml.mixins.TimeMixin', 'fastkml.kml_base._BaseObject', 'fastkml.base._XMLObject'],
        args=['id', 'target_id', 'name', 'visibility', 'isopen', 'atom_link', 'atom_author', 'address', 'phone_number', 'snippet', 'description', 'view', 'times', 'style_url', 'styles', 'region', 'extended_data']),
    'fastkml.geometry.BoundaryIs': dict(tag='BoundaryIs', nsid='kml',
        mro=['fastkml.geometry.BoundaryIs', 'fastkml.base._XMLObject'],
        args=['geometry', 'kml_geometry']),
    'fastkml.geometry.Coordinates': dict(tag='coordinates', nsid='kml',
        mro=['fastkml.geometry.Coordinates', 'fastkml.base._XMLObject'],
        args=['coords']),
    'fastkml.geometry.InnerBoundaryIs': dict(tag='innerBoundaryIs', nsid='kml',
        mro=['fastkml.geometry.InnerBoundaryIs', 'fastkml.geometry.BoundaryIs', 'fastkml.base._XMLObject'],
        args=['geometry', 'kml_geometry']),
    'fastkml.geometry.LineString': dict(tag='LineString', nsid='kml',
        mro=['fastkml.geometry.LineString', 'fastkml.geometry._Geometry', 'fastkml.kml_base._BaseObject', 'fastkml.base._XMLObject'],
        args=['id', 'target_id', 'extrude', 'tessellate', 'altitude_mode', 'geometry', 'kml_coordinates']),
    'fastkml.geometry.LinearRing': dict(tag='LinearRing', nsid='kml',
        mro=['fastkml.geometry.LinearRing', 'fastkml.geometry.LineString', 'fastkml.geometry._Geometry', 'fastkml.kml_base._BaseObject', 'fastkml.base._XMLObject'],
        args=['id', 'target_id', 'extrude', 'tessellate', 'altitude_mode', 'geometry', 'kml_coordinates']),
    'fastkml.geometry.MultiGeometry': dict(tag='MultiGeometry', nsid='kml',
        mro=['fastkml.geometry.MultiGeometry', 'fastkml.kml_base._BaseObject', 'fastkml.base._XMLObject'],
        args=['id', 'target_id', 'extrude', 'tessellate', 'altitude_mode', 'kml_geometries', 'geometry']),
    'fastkml.geometry.OuterBoundaryIs': dict(tag='outerBoundaryIs', nsid='kml',
        mro=['fastkml.geometry.OuterBoundaryIs', 'fastkml.geometry.BoundaryIs', 'fastkml.base._XMLObject'],
        args=['geometry', 'kml_geometry']),
    'fastkml.geometry.Point': dict(tag='Point', nsid='kml',
        mro=['fastkml.geometry.Point', 'fastkml.geometry._Geometry', 'fastkml.kml_base._BaseObject', 'fastkml.base._XMLObject'],
        args=['id', 'target_id', 'extrude', 'altitude_mode', 'geometry', 'kml_coordinates']),
    'fastkml.geometry.Polygon': dict(tag='Polygon', nsid='kml',
        mro=['fastkml.geometry.Polygon', 'fastkml.geometry._Geometry', 'fastkml.kml_base._BaseObject', 'fastkml.base._XMLObject'],
        args=['id', 'target_id', 'extrude', 'tessellate', 'altitude_mode', 'outer_boundary', 'inner_boundaries', 'geometry']),
    'fastkml.geometry._Geometry': dict(tag='_Geometry', nsid='kml',
        mro=['fastkml.geometry._Geometry', 'fastkml.kml_base._BaseObject', 'fastkml.base._XMLObject'],
        args=['id', 'target_id', 'altitude_mode']),
    'fastkml.gx.MultiTrack': dict(tag='MultiTrack', nsid='gx',
        mro=['fastkml.gx.MultiTrack', 'fastkml.geometry._Geometry', 'fastkml.kml_base._BaseObject', 'fastkml.base._XMLObject'],
        args=['id', 'target_id', 'altitude_mode', 'tracks', 'interpolate']),
    'fastkml.gx.Track': dict(tag='Track', nsid='gx',
        mro=['fastkml.gx.Track', 'fastkml.geometry._Geometry', 'fastkml.kml_base._BaseObject', 'fastkml.base._XMLObject'],
        args=['id', 'target_id', 'altitude_mode', 'track_items', 'whens', 'coords', 'angles', 'extended_data']),
    'fastkml.kml.KML': dict(tag='kml', nsid='kml',
        mro=['fastkml.kml.KML', 'fastkml.base._XMLObject'],
        args=['features']),
    'fastkml.kml_base._BaseObject': dict(tag='_BaseObject', nsid='kml',
        mro=['fastkml.kml_base._BaseObject', 'fastkml.base._XMLObject'],
        args=['id', 'target_id']),
    'fastkml.links.Icon': dict(tag='Icon', nsid='kml',
        mro=['fastkml.links.Icon', 'fastkml.links.Link', 'fastkml.kml_base._BaseObject', 'fastkml.base._XMLObject'],
        args=['id', 'target_id', 'href', 'refresh_mode', 'refresh_interval', 'view_refresh_mode', 'view_refresh_time', 'view_bound_scale', 'view_format', 'http_query']),
    'fastkml.links.Link': dict(tag='Link', nsid='kml',
        mro=['fastkml.links.Link', 'fastkml.kml_base._BaseObject', 'fastkml.base._XMLObject'],
        args=['id', 'target_id', 'href', 'refresh_mode', 'refresh_interval', 'view_refresh_mode', 'view_refresh_time', 'view_bound_scale', 'view_format', 'http_query']),
    'fastkml.model.Alias': dict(tag='Alias', nsid='kml',
        mro=['fastkml.model.Alias', 'fastkml.base._XMLObject'],
        args=['target_href', 'source_href']),
    'fastkml.model.Location': dict(tag='Location', nsid='kml',
        mro=['fastkml.model.Location', 'fastkml.base._XMLObject'],
        args=['altitude', 'latitude', 'longitude']),
    'fastkml.model.Model': dict(tag='Model', nsid='kml',
        mro=['fastkml.model.Model', 'fastkml.kml_base._BaseObject', 'fastkml.base._XMLObject'],
        args=['id', 'target_id', 'altitude_mode', 'location', 'orientation', 'scale', 'link', 'resource_map']),
    'fastkml.model.Orientation': dict(tag='Orientation', nsid='kml',
        mro=['fastkml.model.Orientation', 'fastkml.base._XMLObject'],
        args=['heading', 'tilt', 'roll']),
    'fastkml.model.ResourceMap': dict(tag='ResourceMap', nsid='kml',
        mro=['fastkml.model.ResourceMap', 'fastkml.base._XMLObject'],
        args=['aliases']),
    'fastkml.model.Scale': dict(tag='Scale', nsid='kml',
        mro=['fastkml.model.Scale', 'fastkml.base._XMLObject'],
        args=['x', 'y', 'z']),
    'fastkml.network_link_control.NetworkLinkControl': dict(tag='NetworkLinkControl', nsid='kml',
        mro=['fastkml.network_link_control.NetworkLinkControl', 'fastkml.base._XMLObject'],
        args=['min_refresh_period', 'max_session_length', 'cookie', 'message', 'link_name', 'link_description', 'link_snippet', 'expires', 'view']),
    'fastkml.overlays.GroundOverlay': dict(tag='GroundOverlay', nsid='kml',
        mro=['fastkml.overlays.GroundOverlay', 'fastkml.overlays._Overlay', 'fastkml.features._Feature', 'fastkml.mixins.TimeMixin', 'fastkml.kml_base._BaseObject', 'fastkml.base._XMLObject'],
        args=['id', 'target_id', 'name', 'visibility', 'isopen', 'atom_link', 'atom_author', 'address', 'phone_number', 'snippet', 'description', 'view', 'times', 'style_url', 'styles', 'region', 'extended_data', 'color', 'draw_order', 'icon', 'altitude', 'altitude_mode', 'lat_lon_box']),
    'fastkml.overlays.ImagePyramid': dict(tag='ImagePyramid', nsid='kml',
        mro=['fastkml.overlays.ImagePyramid', 'fastkml.base._XMLObject'],
        args=['tile_size', 'max_width', 'max_height', 'grid_origin']),
    'fastkml.overlays.LatLonBox': dict(tag='LatLonBox', nsid='kml',
        mro=['fastkml.overlays.LatLonBox', 'fastkml.base._XMLObject'],
        args=['north', 'south', 'east', 'west', 'rotation']),
    'fastkml.overlays.OverlayXY': dict(tag='overlayXY', nsid='kml',
        mro=['fastkml.overlays.OverlayXY', 'fastkml.overlays._XY', 'fastkml.base._XMLObject'],
        args=['x', 'y', 'x_units', 'y_units']),
    'fastkml.overlays.PhotoOverlay': dict(tag='PhotoOverlay', nsid='kml',
        mro=['fastkml.overlays.PhotoOverlay', 'fastkml.overlays._Overlay', 'fastkml.features._Feature', 'fastkml.mixins.TimeMixin', 'fastkml.kml_base._BaseObject', 'fastkml.base._XMLObject'],
        args=['id', 'target_id', 'name', 'visibility', 'isopen', 'atom_link', 'atom_author', 'address', 'phone_number', 'snippet', 'description', 'view', 'times', 'style_url', 'styles', 'region', 'extended_data', 'color', 'draw_order', 'icon', 'rotation', 'view_volume', 'image_pyramid', 'point', 'shape']),
    'fastkml.overlays.RotationXY': dict(tag='rotationXY', nsid='kml',
        mro=['fastkml.overlays.RotationXY', 'fastkml.overlays._XY', 'fastkml.base._XMLObject'],
        args=['x', 'y', 'x_units', 'y_units']),
    'fastkml.overlays.ScreenOverlay': dict(tag='ScreenOverlay', nsid='kml',
        mro=['fastkml.overlays.ScreenOverlay', 'fastkml.overlays._Overlay', 'fastkml.features._Feature', 'fastkml.mixins.TimeMixin', 'fastkml.kml_base._BaseObject', 'fastkml.base._XMLObject'],
        args=['id', 'target_id', 'name', 'visibility', 'isopen', 'atom_link', 'atom_author', 'address', 'phone_number', 'snippet', 'description', 'view', 'times', 'style_url', 'styles', 'region', 'extended_data', 'color', 'draw_order', 'icon', 'overlay_xy', 'screen_xy', 'rotation_xy', 'size', 'rotation']),
    'fastkml.overlays.ScreenXY': dict(tag='screenXY', nsid='kml',
        mro=['fastkml.overlays.ScreenXY', 'fastkml.overlays._XY', 'fastkml.base._XMLObject'],
        args=['x', 'y', 'x_units', 'y_units']),
    'fastkml.overlays.Size': dict(tag='size', nsid='kml',
        mro=['fastkml.overlays.Size', 'fastkml.overlays._XY', 'fastkml.base._XMLObject'],
        args=['x', 'y', 'x_units', 'y_units']),
    'fastkml.overlays.ViewVolume': dict(tag='ViewVolume', nsid='kml',
        mro=['fastkml.overlays.ViewVolume', 'fastkml.base._XMLObject'],
        args=['left_fov', 'right_fov', 'bottom_fov', 'top_fov', 'near']),
    'fastkml.overlays._Overlay': dict(tag='_Overlay', nsid='kml',
        mro=['fastkml.overlays._Overlay', 'fastkml.features._Feature', 'fastkml.mixins.TimeMixin', 'fastkml.kml_base._BaseObject', 'fastkml.base._XMLObject'],
        args=['id', 'target_id', 'name', 'visibility', 'isopen', 'atom_link', 'atom_author', 'address', 'phone_number', 'snippet', 'description', 'view', 'times', 'style_url', 'styles', 'region', 'extended_data', 'color', 'draw_order', 'icon']),
    'fastkml.overlays._XY': dict(tag='_XY', nsid='kml',
        mro=['fastkml.overlays._XY', 'fastkml.base._XMLObject'],
        args=['x', 'y', 'x_units', 'y_units']),
    'fastkml.styles.BalloonStyle': dict(tag='BalloonStyle', nsid='kml',
        mro=['fastkml.styles.BalloonStyle', 'fastkml.kml_base._BaseObject', 'fastkml.base._XMLObject'],
        args=['id', 'target_id', 'bg_color', 'text_color', 'text', 'display_mode']),
    'fastkml.styles.HotSpot': dict(tag='hotSpot', nsid='kml',
        mro=['fastkml.styles.HotSpot', 'fastkml.base._XMLObject'],
        args=['x', 'y', 'xunits', 'yunits']),
    'fastkml.styles.IconStyle': dict(tag='IconStyle', nsid='kml',
        mro=['fastkml.styles.IconStyle', 'fastkml.styles._ColorStyle', 'fastkml.kml_base._BaseObject', 'fastkml.base._XMLObject'],
        args=['id', 'target_id', 'color', 'color_mode', 'scale', 'heading', 'icon', 'icon_href', 'hot_spot']),
    'fastkml.styles.LabelStyle': dict(tag='LabelStyle', nsid='kml',
        mro=['fastkml.styles.LabelStyle', 'fastkml.styles._ColorStyle', 'fastkml.kml_base._BaseObject', 'fastkml.base._XMLObject'],
        args=['id', 'target_id', 'color', 'color_mode', 'scale']),
    'fastkml.styles.LineStyle': dict(tag='LineStyle', nsid='kml',
        mro=['fastkml.styles.LineStyle', 'fastkml.styles._ColorStyle', 'fastkml.kml_base._BaseObject', 'fastkml.base._XMLObject'],
        args=['id', 'target_id', 'color', 'color_mode', 'width']),
    'fastkml.styles.Pair': dict(tag='Pair', nsid='kml',
        mro=['fastkml.styles.Pair', 'fastkml.kml_base._BaseObject', 'fastkml.base._XMLObject'],
        args=['id', 'target_id', 'key', 'style']),
    'fastkml.styles.PolyStyle': dict(tag='PolyStyle', nsid='kml',
        mro=['fastkml.styles.PolyStyle', 'fastkml.styles._ColorStyle', 'fastkml.kml_base._BaseObject', 'fastkml.base._XMLObject'],
        args=['id', 'target_id', 'color', 'color_mode', 'fill', 'outline']),
    'fastkml.styles.Style': dict(tag='Style', nsid='kml',
        mro=['fastkml.styles.Style', 'fastkml.styles._StyleSelector', 'fastkml.kml_base._BaseObject', 'fastkml.base._XMLObject'],
        args=['id', 'target_id', 'styles']),
    'fastkml.styles.StyleMap': dict(tag='StyleMap', nsid='kml',
        mro=['fastkml.styles.StyleMap', 'fastkml.styles._StyleSelector', 'fastkml.kml_base._BaseObject', 'fastkml.base._XMLObject'],
        args=['id', 'target_id', 'pairs']),
    'fastkml.styles.StyleUrl': dict(tag='styleUrl', nsid='kml',
        mro=['fastkml.styles.StyleUrl', 'fastkml.base._XMLObject'],
        args=['url']),
    'fastkml.styles._ColorStyle': dict(tag='_ColorStyle', nsid='kml',
        mro=['fastkml.styles._ColorStyle', 'fastkml.kml_base._BaseObject', 'fastkml.base._XMLObject'],
        args=['id', 'target_id', 'color', 'color_mode']),
    'fastkml.styles._StyleSelector': dict(tag='_StyleSelector', nsid='kml',
        mro=['fastkml.styles._StyleSelector', 'fastkml.kml_base._BaseObject', 'fastkml.base._XMLObject'],
        args=['id', 'target_id']),
    'fastkml.times.TimeSpan': dict(tag='TimeSpan', nsid='kml',
        mro=['fastkml.times.TimeSpan', 'fastkml.times._TimePrimitive', 'fastkml.kml_base._BaseObject', 'fastkml.base._XMLObject'],
        args=['id', 'target_id', 'begin', 'end']),
    'fastkml.times.TimeStamp': dict(tag='TimeStamp', nsid='kml',
        mro=['fastkml.times.TimeStamp', 'fastkml.times._TimePrimitive', 'fastkml.kml_base._BaseObject', 'fastkml.base._XMLObject'],
        args=['id', 'target_id', 'timestamp']),
    'fastkml.times._TimePrimitive': dict(tag='_TimePrimitive', nsid='kml',
        mro=['fastkml.times._TimePrimitive', 'fastkml.kml_base._BaseObject', 'fastkml.base._XMLObject'],
        args=['id', 'target_id']),
    'fastkml.views.Camera': dict(tag='Camera', nsid='kml',
        mro=['fastkml.views.Camera', 'fastkml.views._AbstractView', 'fastkml.mixins.TimeMixin', 'fastkml.kml_base._BaseObject', 'fastkml.base._XMLObject'],
        args=['id', 'target_id', 'longitude', 'latitude', 'altitude', 'heading', 'tilt', 'roll', 'altitude_mode']),
    'fastkml.views.LatLonAltBox': dict(tag='LatLonAltBox', nsid='kml',
        mro=['fastkml.views.LatLonAltBox', 'fastkml.base._XMLObject'],
        args=['north', 'south', 'east', 'west', 'min_altitude', 'max_altitude', 'altitude_mode']),
    'fastkml.views.Lod': dict(tag='Lod', nsid='kml',
        mro=['fastkml.views.Lod', 'fastkml.base._XMLObject'],
        args=['min_lod_pixels', 'max_lod_pixels', 'min_fade_extent', 'max_fade_extent']),
    'fastkml.views.LookAt': dict(tag='LookAt', nsid='kml',
        mro=['fastkml.views.LookAt', 'fastkml.views._AbstractView', 'fastkml.mixins.TimeMixin', 'fastkml.kml_base._BaseObject', 'fastkml.base._XMLObject'],
        args=['id', 'target_id', 'longitude', 'latitude', 'altitude', 'heading', 'tilt', 'range', 'altitude_mode']),
    'fastkml.views.Region': dict(tag='Region', nsid='kml',
        mro=['fastkml.views.Region', 'fastkml.kml_base._BaseObject', 'fastkml.base._XMLObject'],
        args=['id', 'target_id', 'lat_lon_alt_box', 'lod']),
    'fastkml.views._AbstractView': dict(tag='_AbstractView', nsid='kml',
        mro=['fastkml.views._AbstractView', 'fastkml.mixins.TimeMixin', 'fastkml.kml_base._BaseObject', 'fastkml.base._XMLObject'],
        args=['id', 'target_id', 'longitude', 'latitude', 'altitude', 'heading', 'tilt', 'altitude_mode']),
}
ROWS = {
    'fastkml.atom.Link': [
        ('href', 'atext', 'href', ('', 'atom'), ('str',), None),
        ('rel', 'atext', 'rel', ('', 'atom'), ('str',), None),
        ('type', 'atext', 'type', ('', 'atom'), ('str',), None),
        ('hreflang', 'atext', 'hreflang', ('', 'atom'), ('str',), None),
        ('title', 'atext', 'title', ('', 'atom'), ('str',), None),
        ('length', 'aint', 'length', ('', 'atom'), ('int',), None),
    ],
    'fastkml.atom._Person': [
        ('name', 'text', 'name', ('atom',), ('str',), None),
        ('uri', 'text', 'uri', ('atom',), ('str',), None),
        ('email', 'text', 'email', ('atom',), ('str',), None),
    ],
    'fastkml.kml_base._BaseObject': [
        ('id', 'atext', 'id', ('', 'kml'), ('str',), None),
        ('target_id', 'atext', 'targetId', ('', 'kml'), ('str',), None),
    ],
    'fastkml.data.SimpleField': [
        ('display_name', 'text', 'displayName', ('kml', ''), ('str',), None),
        ('name', 'atext', 'name', ('', 'kml'), ('str',), None),
        ('type_', 'aenum', 'type', ('', 'kml'), ('fastkml.enums.DataType',), None),
    ],
    'fastkml.data.Schema': [
        ('id', 'atext', 'id', ('kml', ''), ('str',), None),
        ('name', 'atext', 'name', ('', 'kml'), ('str',), None),
        ('fields', 'objlist', None, ('kml', ''), ('fastkml.data.SimpleField',), None),
    ],
    'fastkml.data.Data': [
        ('display_name', 'text', 'displayName', ('kml', ''), ('str',), None),
        ('value', 'text', 'value', ('kml', ''), ('str',), None),
        ('name', 'atext', 'name', ('', 'kml'), ('str',), None),
    ],
    'fastkml.data.SimpleData': [
        ('value', 'ntext', 'value', ('kml', ''), ('str',), None),
        ('name', 'atext', 'name', ('', 'kml'), ('str',), None),
    ],
    'fastkml.data.SchemaData': [
        ('schema_url', 'atext', 'schemaUrl', ('', 'kml'), ('str',), None),
        ('data', 'objlist', None, ('kml', ''), ('fastkml.data.SimpleData',), None),
    ],
    'fastkml.data.ExtendedData': [
        ('elements', 'objlist', None, ('kml', ''), ('fastkml.data.Data', 'fastkml.data.SchemaData'), None),
    ],
    'fastkml.geometry.Coordinates': [
        ('coords', 'coordinates', 'coordinates', ('kml', ''), (), None),
    ],
    'fastkml.geometry.Point': [
        ('extrude', 'bool', 'extrude', ('kml', ''), ('bool',), False),
        ('altitude_mode', 'enum', 'altitudeMode', ('kml', 'gx', ''), ('fastkml.enums.AltitudeMode',), '@AltitudeMode.clamp_to_ground'),
        ('kml_coordinates', 'obj', None, ('kml', ''), ('fastkml.geometry.Coordinates',), None),
    ],
    'fastkml.geometry.LineString': [
        ('extrude', 'bool', 'extrude', ('kml', ''), ('bool',), False),
        ('tessellate', 'bool', 'tessellate', ('kml', ''), ('bool',), False),
        ('altitude_mode', 'enum', 'altitudeMode', ('kml', 'gx', ''), ('fastkml.enums.AltitudeMode',), '@AltitudeMode.clamp_to_ground'),
        ('kml_coordinates', 'obj', None, ('kml', ''), ('fastkml.geometry.Coordinates',), None),
    ],
    'fastkml.geometry.BoundaryIs': [
        ('kml_geometry', 'obj', None, ('kml', ''), ('fastkml.geometry.LinearRing',), None),
    ],
    'fastkml.geometry.Polygon': [
        ('extrude', 'bool', 'extrude', ('kml', ''), ('bool',), False),
        ('tessellate', 'bool', 'tessellate', ('kml', ''), ('bool',), False),
        ('altitude_mode', 'enum', 'altitudeMode', ('kml', 'gx', ''), ('fastkml.enums.AltitudeMode',), '@AltitudeMode.clamp_to_ground'),
        ('outer_boundary', 'obj', None, ('kml', ''), ('fastkml.geometry.OuterBoundaryIs',), None),
        ('inner_boundaries', 'objlist', None, ('kml', ''), ('fastkml.geometry.InnerBoundaryIs',), None),
    ],
    'fastkml.geometry.MultiGeometry': [
        ('kml_geometries', 'objlist', None, ('kml', ''), ('fastkml.geometry.Point', 'fastkml.geometry.LineString', 'fastkml.geometry.Polygon', 'fastkml.geometry.LinearRing', 'fastkml.geometry.MultiGeometry'), None),
    ],
    'fastkml.times.TimeStamp': [
        ('timestamp', 'dt', 'when', ('kml', 'gx', ''), ('fastkml.times.KmlDateTime',), None),
    ],
    'fastkml.times.TimeSpan': [
        ('begin', 'dt', 'begin', ('kml', 'gx', ''), ('fastkml.times.KmlDateTime',), None),
        ('end', 'dt', 'end', ('kml', 'gx', ''), ('fastkml.times.KmlDateTime',), None),
    ],
    'fastkml.gx.Track': [
        ('altitude_mode', 'enum', 'altitudeMode', ('gx', 'kml', ''), ('fastkml.enums.AltitudeMode',), '@AltitudeMode.clamp_to_ground'),
        ('whens', 'dtlist', 'when', ('kml', 'gx', ''), ('fastkml.times.KmlDateTime',), None),
        ('coords', 'coordlist', 'coord', ('gx', ''), ('tuple',), None),
        ('angles', 'coordlist', 'angles', ('gx', ''), ('tuple',), (0.0, 0.0, 0.0)),
        ('extended_data', 'obj', None, ('kml', ''), ('fastkml.data.ExtendedData',), None),
    ],
    'fastkml.gx.MultiTrack': [
        ('altitude_mode', 'enum', 'altitudeMode', ('gx', 'kml'), ('fastkml.enums.AltitudeMode',), '@AltitudeMode.clamp_to_ground'),
        ('interpolate', 'bool', 'interpolate', ('gx',), ('bool',), None),
        ('tracks', 'objlist', None, ('gx',), ('fastkml.gx.Track',), None),
    ],
    'fastkml.links.Link': [
        ('href', 'text', 'href', ('kml', ''), ('str',), None),
        ('refresh_mode', 'enum', 'refreshMode', ('kml', ''), ('fastkml.enums.RefreshMode',), '@RefreshMode.on_change'),
        ('refresh_interval', 'float', 'refreshInterval', ('kml', ''), ('float',), 4.0),
        ('view_refresh_mode', 'enum', 'viewRefreshMode', ('kml', ''), ('fastkml.enums.ViewRefreshMode',), '@ViewRefreshMode.never'),
        ('view_refresh_time', 'float', 'viewRefreshTime', ('kml', ''), ('float',), 4.0),
        ('view_bound_scale', 'float', 'viewBoundScale', ('kml', ''), ('float',), 1.0),
        ('view_format', 'text', 'viewFormat', ('kml', ''), ('str',), 'BBOX=[bboxWest],[bboxSouth],[bboxEast],[bboxNorth]'),
        ('http_query', 'text', 'httpQuery', ('kml', ''), ('str',), None),
    ],
    'fastkml.model.Location': [
        ('longitude', 'float', 'longitude', ('kml', ''), ('float',), None),
        ('latitude', 'float', 'latitude', ('kml', ''), ('float',), None),
        ('altitude', 'float', 'altitude', ('kml', ''), ('float',), 0.0),
    ],
    'fastkml.model.Orientation': [
        ('heading', 'float', 'heading', ('kml', ''), ('float',), 0.0),
        ('tilt', 'float', 'tilt', ('kml', ''), ('float',), 0.0),
        ('roll', 'float', 'roll', ('kml', ''), ('float',), 0.0),
    ],
    'fastkml.model.Scale': [
        ('x', 'float', 'x', ('kml', ''), ('float',), 1.0),
        ('y', 'float', 'y', ('kml', ''), ('float',), 1.0),
        ('z', 'float', 'z', ('kml', ''), ('float',), 1.0),
    ],
    'fastkml.model.Alias': [
        ('target_href', 'text', 'targetHref', ('kml', ''), ('str',), None),
        ('source_href', 'text', 'sourceHref', ('kml', ''), ('str',), None),
    ],
    'fastkml.model.ResourceMap': [
        ('aliases', 'objlist', None, ('kml', ''), ('fastkml.model.Alias',), None),
    ],
    'fastkml.model.Model': [
        ('altitude_mode', 'enum', 'altitudeMode', ('kml', 'gx', ''), ('fastkml.enums.AltitudeMode',), '@AltitudeMode.clamp_to_ground'),
        ('location', 'obj', None, ('kml', ''), ('fastkml.model.Location',), None),
        ('orientation', 'obj', None, ('kml', ''), ('fastkml.model.Orientation',), None),
        ('scale', 'obj', None, ('kml', ''), ('fastkml.model.Scale',), None),
        ('link', 'obj', None, ('kml', ''), ('fastkml.links.Link',), None),
        ('resource_map', 'obj', None, ('kml', ''), ('fastkml.model.ResourceMap',), None),
    ],
    'fastkml.styles.StyleUrl': [
        ('url', 'ntext', 'styleUrl', ('kml', ''), ('str',), None),
    ],
    'fastkml.styles._ColorStyle': [
        ('color', 'text', 'color', ('kml', ''), ('str',), 'ffffffff'),
        ('color_mode', 'enum', 'colorMode', ('kml', ''), ('fastkml.enums.ColorMode',), '@ColorMode.normal'),
    ],
    'fastkml.styles.HotSpot': [
        ('x', 'afloat', 'x', ('', 'kml'), ('float',), 0.5),
        ('y', 'afloat', 'y', ('', 'kml'), ('float',), 0.5),
        ('xunits', 'aenum', 'xunits', ('', 'kml'), ('fastkml.enums.Units',), '@Units.fraction'),
        ('yunits', 'aenum', 'yunits', ('', 'kml'), ('fastkml.enums.Units',), '@Units.fraction'),
    ],
    'fastkml.styles.IconStyle': [
        ('scale', 'float', 'scale', ('kml', ''), ('float',), 1.0),
        ('heading', 'float', 'heading', ('kml', ''), ('float',), 0.0),
        ('icon', 'obj', None, ('kml', ''), ('fastkml.links.Icon',), None),
        ('hot_spot', 'obj', None, ('kml', ''), ('fastkml.styles.HotSpot',), None),
    ],
    'fastkml.styles.LineStyle': [
        ('width', 'float', 'width', ('kml', ''), ('float',), 1.0),
    ],
    'fastkml.styles.PolyStyle': [
        ('fill', 'bool', 'fill', ('kml', ''), ('bool',), True),
        ('outline', 'bool', 'outline', ('kml', ''), ('bool',), True),
    ],
    'fastkml.styles.LabelStyle': [
        ('scale', 'float', 'scale', ('kml', ''), ('float',), 1.0),
    ],
    'fastkml.styles.BalloonStyle': [
        ('bg_color', 'text', 'bgColor', ('kml', ''), ('str',), 'ffffffff'),
        ('text_color', 'text', 'textColor', ('kml', ''), ('str',), 'ff000000'),
        ('text', 'text', 'text', ('kml', ''), ('str',), None),
        ('display_mode', 'enum', 'displayMode', ('kml', ''), ('fastkml.enums.DisplayMode',), '@DisplayMode.default'),
    ],
    'fastkml.styles.Style': [
        ('styles', 'objlist', None, ('kml', ''), ('fastkml.styles.IconStyle', 'fastkml.styles.LabelStyle', 'fastkml.styles.LineStyle', 'fastkml.styles.PolyStyle', 'fastkml.styles.BalloonStyle'), None),
    ],
    'fastkml.styles.Pair': [
        ('key', 'enum', 'key', ('kml', ''), ('fastkml.enums.PairKey',), None),
        ('style', 'obj', None, ('kml', ''), ('fastkml.styles.StyleUrl', 'fastkml.styles.Style'), None),
    ],
    'fastkml.styles.StyleMap': [
        ('pairs', 'objlist', None, ('kml', ''), ('fastkml.styles.Pair',), None),
    ],
    'fastkml.views._AbstractView': [
        ('longitude', 'float', 'longitude', ('kml', ''), ('float',), 0.0),
        ('latitude', 'float', 'latitude', ('kml', ''), ('float',), 0.0),
        ('altitude', 'float', 'altitude', ('kml', ''), ('float',), 0.0),
        ('heading', 'float', 'heading', ('kml', ''), ('float',), 0.0),
        ('tilt', 'float', 'tilt', ('kml', ''), ('float',), 0.0),
    ],
    'fastkml.views.Camera': [
        ('roll', 'float', 'roll', ('kml', ''), ('float',), 0.0),
        ('altitude_mode', 'enum', 'altitudeMode', ('kml', 'gx', ''), ('fastkml.enums.AltitudeMode',), '@AltitudeMode.clamp_to_ground'),
    ],
    'fastkml.views.LookAt': [
        ('range', 'float', 'range', ('kml', ''), ('float',), None),
        ('altitude_mode', 'enum', 'altitudeMode', ('kml', 'gx', ''), ('fastkml.enums.AltitudeMode',), '@AltitudeMode.clamp_to_ground'),
    ],
    'fastkml.views.LatLonAltBox': [
        ('north', 'float', 'north', ('kml', ''), ('float',), None),
        ('south', 'float', 'south', ('kml', ''), ('float',), None),
        ('east', 'float', 'east', ('kml', ''), ('float',), None),
        ('west', 'float', 'west', ('kml', ''), ('float',), None),
        ('min_altitude', 'float', 'minAltitude', ('kml', ''), ('float',), 0.0),
        ('max_altitude', 'float', 'maxAltitude', ('kml', ''), ('float',), 0.0),
        ('altitude_mode', 'enum', 'altitudeMode', ('kml', 'gx', ''), ('fastkml.enums.AltitudeMode',), '@AltitudeMode.clamp_to_ground'),
    ],
    'fastkml.views.Lod': [
        ('min_lod_pixels', 'int', 'minLodPixels', ('kml', ''), ('float',), 256),
        ('max_lod_pixels', 'int', 'maxLodPixels', ('kml', ''), ('float',), -1),
        ('min_fade_extent', 'int', 'minFadeExtent', ('kml', ''), ('float',), 0),
        ('max_fade_extent', 'int', 'maxFadeExtent', ('kml', ''), ('float',), 0),
    ],
    'fastkml.views.Region': [
        ('lat_lon_alt_box', 'obj', None, ('kml', ''), ('fastkml.views.LatLonAltBox',), None),
        ('lod', 'obj', None, ('kml', ''), ('fastkml.views.Lod',), None),
    ],
    'fastkml.features.Snippet': [
        ('text', 'ntext', 'Snippet', ('kml', ''), ('str',), None),
        ('max_lines', 'aint', 'maxLines', ('', 'kml'), ('int',), 2),
    ],
    'fastkml.features._Feature': [
        ('name', 'text', 'name', ('kml', ''), ('str',), None),
        ('visibility', 'bool', 'visibility', ('kml', ''), ('bool',), True),
        ('isopen', 'bool', 'open', ('kml', ''), ('bool',), False),
        ('atom_author', 'obj', None, ('atom',), ('fastkml.atom.Author',), None),
        ('atom_link', 'obj', None, ('atom',), ('fastkml.atom.Link',), None),
        ('address', 'text', 'address', ('kml', ''), ('str',), None),
        ('phone_number', 'text', 'phoneNumber', ('kml', ''), ('str',), None),
        ('snippet', 'obj', None, ('kml', ''), ('fastkml.features.Snippet',), None),
        ('description', 'text', 'description', ('kml', ''), ('str',), None),
        ('view', 'obj', None, ('kml', ''), ('fastkml.views.Camera', 'fastkml.views.LookAt'), None),
        ('times', 'obj', None, ('kml', ''), ('fastkml.times.TimeSpan', 'fastkml.times.TimeStamp'), None),
        ('style_url', 'obj', None, ('kml', ''), ('fastkml.styles.StyleUrl',), None),
        ('styles', 'objlist', None, ('kml', ''), ('fastkml.styles.Style', 'fastkml.styles.StyleMap'), None),
        ('region', 'obj', None, ('kml', ''), ('fastkml.views.Region',), None),
        ('extended_data', 'obj', None, ('kml', ''), ('fastkml.data.ExtendedData',), None),
    ],
    'fastkml.features.Placemark': [
        ('kml_geometry', 'obj', None, ('kml', 'gx', ''), ('fastkml.geometry.Point', 'fastkml.geometry.LineString', 'fastkml.geometry.LinearRing', 'fastkml.geometry.Polygon', 'fastkml.geometry.MultiGeometry', 'fastkml.model.Model', 'fastkml.gx.MultiTrack', 'fastkml.gx.Track'), None),
    ],
    'fastkml.features.NetworkLink': [
        ('refresh_visibility', 'bool', 'refreshVisibility', ('kml', ''), ('bool',), False),
        ('fly_to_view', 'bool', 'flyToView', ('kml', ''), ('bool',), False),
        ('link', 'obj', None, ('kml', ''), ('fastkml.links.Link',), None),
    ],
    'fastkml.overlays._Overlay': [
        ('color', 'text', 'color', ('kml', ''), ('str',), 'ffffffff'),
        ('draw_order', 'int', 'drawOrder', ('kml', ''), ('int',), 0),
        ('icon', 'obj', None, ('kml', ''), ('fastkml.links.Icon',), None),
    ],
    'fastkml.overlays.ViewVolume': [
        ('left_fov', 'float', 'leftFov', ('kml', ''), ('float',), 0.0),
        ('right_fov', 'float', 'rightFov', ('kml', ''), ('float',), 0.0),
        ('bottom_fov', 'float', 'bottomFov', ('kml', ''), ('float',), 0.0),
        ('top_fov', 'float', 'topFov', ('kml', ''), ('float',), 0.0),
        ('near', 'float', 'near', ('kml', ''), ('float',), 0.0),
    ],
    'fastkml.overlays.ImagePyramid': [
        ('tile_size', 'int', 'tileSize', ('kml', ''), ('int',), 256),
        ('max_width', 'int', 'maxWidth', ('kml', ''), ('int',), None),
        ('max_height', 'int', 'maxHeight', ('kml', ''), ('int',), None),
        ('grid_origin', 'enum', 'gridOrigin', ('kml', ''), ('fastkml.enums.GridOrigin',), '@GridOrigin.lower_left'),
    ],
    'fastkml.overlays.PhotoOverlay': [
        ('rotation', 'float', 'rotation', ('kml', ''), ('float',), 0.0),
        ('view_volume', 'obj', None, ('kml', ''), ('fastkml.overlays.ViewVolume',), None),
        ('image_pyramid', 'obj', None, ('kml', ''), ('fastkml.overlays.ImagePyramid',), None),
        ('point', 'obj', None, ('kml', ''), ('fastkml.geometry.Point',), None),
        ('shape', 'enum', 'shape', ('kml', ''), ('fastkml.enums.Shape',), '@Shape.rectangle'),
    ],
    'fastkml.overlays.LatLonBox': [
        ('north', 'float', 'north', ('kml', ''), ('float',), None),
        ('south', 'float', 'south', ('kml', ''), ('float',), None),
        ('east', 'float', 'east', ('kml', ''), ('float',), None),
        ('west', 'float', 'west', ('kml', ''), ('float',), None),
        ('rotation', 'float', 'rotation', ('kml', ''), ('float',), 0.0),
    ],
    'fastkml.overlays.GroundOverlay': [
        ('altitude', 'float', 'altitude', ('kml', ''), ('float',), 0.0),
        ('altitude_mode', 'enum', 'altitudeMode', ('kml', 'gx', ''), ('fastkml.enums.AltitudeMode',), '@AltitudeMode.clamp_to_ground'),
        ('lat_lon_box', 'obj', None, ('kml', ''), ('fastkml.overlays.LatLonBox',), None),
    ],
    'fastkml.overlays._XY': [
        ('x', 'afloat', 'x', ('', 'kml'), ('float',), None),
        ('y', 'afloat', 'y', ('', 'kml'), ('float',), None),
        ('x_units', 'aenum', 'xunits', ('', 'kml'), ('fastkml.enums.Units',), '@Units.fraction'),
        ('y_units', 'aenum', 'yunits', ('', 'kml'), ('fastkml.enums.Units',), '@Units.fraction'),
    ],
    'fastkml.overlays.ScreenOverlay': [
        ('overlay_xy', 'obj', None, ('kml', ''), ('fastkml.overlays.OverlayXY',), None),
        ('screen_xy', 'obj', None, ('kml', ''), ('fastkml.overlays.ScreenXY',), None),
        ('rotation_xy', 'obj', None, ('kml', ''), ('fastkml.overlays.RotationXY',), None),
        ('size', 'obj', None, ('kml', ''), ('fastkml.overlays.Size',), None),
        ('rotation', 'float', 'rotation', ('kml', ''), ('float',), 0.0),
    ],
    'fastkml.containers.Document': [
        ('schemata', 'objlist', None, ('kml', ''), ('fastkml.data.Schema',), None),
        ('features', 'objlist', None, ('kml', ''), ('fastkml.containers.Document', 'fastkml.containers.Folder', 'fastkml.features.Placemark', 'fastkml.overlays.GroundOverlay', 'fastkml.overlays.PhotoOverlay', 'fastkml.overlays.ScreenOverlay', 'fastkml.features.NetworkLink'), None),
    ],
    'fastkml.containers.Folder': [
        ('features', 'objlist', None, ('kml', ''), ('fastkml.containers.Document', 'fastkml.containers.Folder', 'fastkml.features.Placemark', 'fastkml.overlays.GroundOverlay', 'fastkml.overlays.PhotoOverlay', 'fastkml.overlays.ScreenOverlay', 'fastkml.features.NetworkLink'), None),
    ],
    'fastkml.network_link_control.NetworkLinkControl': [
        ('min_refresh_period', 'float', 'minRefreshPeriod', ('kml',), ('float',), 0),
        ('max_session_length', 'float', 'maxSessionLength', ('kml',), ('float',), -1),
        ('cookie', 'text', 'cookie', ('kml',), ('str',), None),
        ('message', 'text', 'message', ('kml',), ('str',), None),
        ('link_name', 'text', 'linkName', ('kml',), ('str',), None),
        ('link_description', 'text', 'linkDescription', ('kml',), ('str',), None),
        ('link_snippet', 'text', 'linkSnippet', ('kml',), ('str',), None),
        ('expires', 'dt', 'expires', ('kml',), ('fastkml.times.KmlDateTime',), None),
        ('view', 'obj', None, ('kml',), ('fastkml.views.Camera', 'fastkml.views.LookAt'), None),
    ],
    'fastkml.kml.KML': [
        ('features', 'objlist', None, ('kml',), ('fastkml.containers.Document', 'fastkml.containers.Folder', 'fastkml.features.Placemark', 'fastkml.overlays.GroundOverlay', 'fastkml.overlays.PhotoOverlay', 'fastkml.overlays.ScreenOverlay', 'fastkml.features.NetworkLink', 'fastkml.network_link_control.NetworkLinkControl'), None),
    ],
}


# the enumerations of the KML schema (and of the Google extension): the
# library's member name and the text it stands for
ENUMS = {
    'AltitudeMode': {'clamp_to_ground': 'clampToGround', 'relative_to_ground': 'relativeToGround', 'absolute': 'absolute',
                     'clamp_to_sea_floor': 'clampToSeaFloor', 'relative_to_sea_floor': 'relativeToSeaFloor'},
    'DataType': {'string': 'string', 'int_': 'int', 'uint': 'uint', 'short': 'short', 'ushort': 'ushort',
                 'float_': 'float', 'double': 'double', 'bool_': 'bool'},
    'RefreshMode': {'on_change': 'onChange', 'on_interval': 'onInterval', 'on_expire': 'onExpire'},
    'ViewRefreshMode': {'never': 'never', 'on_stop': 'onStop', 'on_request': 'onRequest', 'on_region': 'onRegion'},
    'ColorMode': {'normal': 'normal', 'random': 'random'},
    'DisplayMode': {'default': 'default', 'hide': 'hide'},
    'Shape': {'rectangle': 'rectangle', 'cylinder': 'cylinder', 'sphere': 'sphere'},
    'GridOrigin': {'lower_left': 'lowerLeft', 'upper_left': 'upperLeft'},
    'Units': {'fraction': 'fraction', 'pixels': 'pixels', 'inset_pixels': 'insetPixels'},
    'PairKey': {'normal': 'normal', 'highlight': 'highlight'},
}
