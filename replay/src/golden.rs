//! Debug form of an element without any record: the documented defaults of the format.
pub const GOLDEN: &[(&str, &str)] = &[
    ("Ball", "Ball { name: \"\", pos: Vertex3D { x: 0.0, y: 0.0, z: 25.0 }, radius: 25.0, mass: 1.0, force_reflection: false, decal_mode: false, image: \"\", image_decal: \"\", bulb_intensity_scale: 1.0, playfield_reflection_strength: 1.0, color: Color { unused: 0, r: 255, g: 255, b: 255 }, spherical_mapping: false, is_reflection_enabled: true, timer: TimerData { is_enabled: false, interval: 0 }, is_locked: false, editor_layer: None, editor_layer_name: None, editor_layer_visibility: None, part_group_name: None }"),
    ("Bumper", "Bumper { name: \"\", center: Vertex2D { x: 0.0, y: 0.0 }, radius: 45.0, threshold: 1.0, force: 15.0, scatter: None, height_scale: 90.0, ring_speed: 0.5, orientation: 0.0, ring_drop_offset: None, cap_material: \"\", base_material: \"\", socket_material: \"\", ring_material: None, surface: \"\", is_cap_visible: true, is_base_visible: true, is_ring_visible: None, is_socket_visible: None, hit_event: None, is_collidable: None, is_reflection_enabled: None, timer: TimerData { is_enabled: false, interval: 0 }, is_locked: false, editor_layer: None, editor_layer_name: None, editor_layer_visibility: None, part_group_name: None }"),
    ("Decal", "Decal { center: Vertex2D { x: 0.0, y: 0.0 }, width: 100.0, height: 100.0, rotation: 0.0, image: \"\", surface: \"\", name: \"\", text: \"\", decal_type: Image, material: \"\", color: Color { unused: 0, r: 0, g: 0, b: 0 }, sizing_type: ManualSize, vertical_text: false, backglass: false, font: Font { charset: 0, style: {}, weight: 0, size: 400, name: \"Arial\" }, is_locked: false, editor_layer: None, editor_layer_name: None, editor_layer_visibility: None, part_group_name: None }"),
    ("DragPoint", "DragPoint { x: 0.0, y: 0.0, z: 0.0, smooth: false, is_slingshot: None, has_auto_texture: false, tex_coord: 0.0, is_locked: false, editor_layer: None, editor_layer_name: None, editor_layer_visibility: None }"),
    ("Flasher", "Flasher { height: 50.0, pos_x: 0.0, pos_y: 0.0, rot_x: 0.0, rot_y: 0.0, rot_z: 0.0, color: Color { unused: 0, r: 255, g: 255, b: 255 }, name: \"\", image_a: \"\", image_b: \"\", alpha: 100, modulate_vs_add: 0.9, is_visible: true, add_blend: false, is_dmd: None, render_mode: None, render_style: None, glass_roughness: None, glass_ambient: None, glass_pad_top: None, glass_pad_bottom: None, glass_pad_left: None, glass_pad_right: None, image_src_link: None, display_texture: false, depth_bias: 0.0, image_alignment: Wrap, filter: Overlay, filter_amount: 100, light_map: None, backglass: None, drag_points: [], timer: TimerData { is_enabled: false, interval: 0 }, is_locked: false, editor_layer: None, editor_layer_name: None, editor_layer_visibility: None, part_group_name: None }"),
    ("Flipper", "Flipper { name: \"\", center: Vertex2D { x: 0.0, y: 0.0 }, base_radius: 21.5, end_radius: 13.0, flipper_radius_max: 130.0, return_: 0.058, start_angle: 121.0, end_angle: 70.0, override_physics: 0, mass: 1.0, surface: \"\", material: \"\", rubber_material: \"\", rubber_thickness_int: 0, rubber_thickness: None, rubber_height_int: 0, rubber_height: None, rubber_width_int: 0, rubber_width: None, strength: 2200.0, elasticity: 0.8, elasticity_falloff: 0.43, friction: 0.6, ramp_up: 3.0, scatter: None, torque_damping: None, torque_damping_angle: None, flipper_radius_min: 0.0, is_visible: true, is_enabled: true, height: 50.0, image: None, is_reflection_enabled: None, timer: TimerData { is_enabled: false, interval: 0 }, is_locked: false, editor_layer: None, editor_layer_name: None, editor_layer_visibility: None, part_group_name: None }"),
    ("Gate", "Gate { name: \"\", center: Vertex2D { x: 0.0, y: 0.0 }, length: 100.0, height: 50.0, rotation: -90.0, material: \"\", show_bracket: true, is_collidable: true, imgf: None, imgb: None, surface: \"\", elasticity: 0.3, angle_max: 1.5707964, angle_min: 0.0, friction: 0.02, damping: None, gravity_factor: None, is_visible: true, two_way: false, is_reflection_enabled: None, gate_type: None, timer: TimerData { is_enabled: false, interval: 0 }, is_locked: false, editor_layer: None, editor_layer_name: None, editor_layer_visibility: None, part_group_name: None }"),
    ("HitTarget", "HitTarget { name: \"\", position: Vertex3D { x: 0.0, y: 0.0, z: 0.0 }, size: Vertex3D { x: 32.0, y: 32.0, z: 32.0 }, rot_z: 0.0, image: \"\", target_type: DropTargetSimple, material: \"\", is_visible: true, is_legacy: false, use_hit_event: true, threshold: 2.0, elasticity: 0.0, elasticity_falloff: 0.0, friction: 0.0, scatter: 0.0, is_collidable: true, disable_lighting_top_old: None, disable_lighting_top: None, disable_lighting_below: None, depth_bias: 0.0, is_reflection_enabled: true, is_dropped: false, drop_speed: 0.5, raise_delay: None, physics_material: None, overwrite_physics: None, timer: TimerData { is_enabled: false, interval: 0 }, is_locked: false, editor_layer: None, editor_layer_name: None, editor_layer_visibility: None, part_group_name: None }"),
    ("Kicker", "Kicker { center: Vertex2D { x: 0.0, y: 0.0 }, radius: 25.0, material: \"\", surface: \"\", is_enabled: true, name: \"\", kicker_type: Hole, scatter: 0.0, hit_accuracy: 0.7, hit_height: None, orientation: 0.0, fall_through: false, legacy_mode: true, timer: TimerData { is_enabled: false, interval: 0 }, is_locked: false, editor_layer: None, editor_layer_name: None, editor_layer_visibility: None, part_group_name: None }"),
    ("Light", "Light { name: \"\", center: Vertex2D { x: 0.0, y: 0.0 }, height: None, falloff_radius: 0.0, falloff_power: 0.0, state_u32: 0, state: None, color: Color { unused: 0, r: 255, g: 169, b: 87 }, color2: Color { unused: 0, r: 255, g: 169, b: 87 }, blink_pattern: \"10\", image: \"\", blink_interval: 0, intensity: 1.0, transmission_scale: 0.5, surface: \"\", is_backglass: false, depth_bias: 0.0, fade_speed_up: 0.2, fade_speed_down: 0.2, is_bulb_light: false, is_image_mode: false, show_bulb_mesh: false, has_static_bulb_mesh: None, show_reflection_on_ball: true, mesh_radius: 20.0, bulb_modulate_vs_add: 0.9, bulb_halo_height: 28.0, shadows: None, fader: None, visible: None, timer: TimerData { is_enabled: false, interval: 0 }, is_locked: false, editor_layer: None, editor_layer_name: None, editor_layer_visibility: None, part_group_name: None, drag_points: [] }"),
    ("LightSequencer", "LightSequencer { center: Vertex2D { x: 0.0, y: 0.0 }, collection: \"\", pos_x: 0.0, pos_y: 0.0, update_interval: 25, name: \"\", backglass: false, timer: TimerData { is_enabled: false, interval: 0 }, is_locked: None, editor_layer: None, editor_layer_name: None, editor_layer_visibility: None, part_group_name: None }"),
    ("PartGroup", "PartGroup { name: \"\", center: Vertex2D { x: 0.0, y: 0.0 }, timer: TimerData { is_enabled: false, interval: 0 }, backglass: false, visibility_mask: None, space_reference: Inherit, player_mode_visibility_mask: None, is_locked: false, editor_layer_name: None, editor_layer_visibility: None }"),
    ("Plunger", "Plunger { center: Vertex2D { x: 0.0, y: 0.0 }, width: 25.0, height: 20.0, z_adjust: 0.0, stroke: 80.0, speed_pull: 0.5, speed_fire: 80.0, plunger_type: Modern, anim_frames: 1, material: \"\", image: \"\", mech_strength: 85.0, is_mech_plunger: false, auto_plunger: false, park_position: 0.16666667, scatter_velocity: 0.0, momentum_xfer: 1.0, is_visible: true, is_reflection_enabled: None, surface: \"\", name: \"\", tip_shape: \"0 .34; 2 .6; 3 .64; 5 .7; 7 .84; 8 .88; 9 .9; 11 .92; 14 .92; 39 .84\", rod_diam: 0.6, ring_gap: 2.0, ring_diam: 0.94, ring_width: 3.0, spring_diam: 0.77, spring_gauge: 1.38, spring_loops: 8.0, spring_end_loops: 2.5, timer: TimerData { is_enabled: false, interval: 0 }, is_locked: false, editor_layer: None, editor_layer_name: None, editor_layer_visibility: None, part_group_name: None }"),
    ("Primitive", "Primitive { name: \"\", position: Vertex3D { x: 0.0, y: 0.0, z: 0.0 }, size: Vertex3D { x: 100.0, y: 100.0, z: 100.0 }, rot_and_tra: [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0], image: \"\", normal_map: None, sides: 4, material: \"\", side_color: Color { unused: 0, r: 0, g: 0, b: 0 }, is_visible: true, draw_textures_inside: false, hit_event: true, threshold: 2.0, elasticity: 0.3, elasticity_falloff: 0.5, friction: 0.3, scatter: 0.0, edge_factor_ui: 0.25, collision_reduction_factor: None, is_collidable: true, is_toy: false, use_3d_mesh: false, static_rendering: false, disable_lighting_top_old: None, disable_lighting_top: None, disable_lighting_below: None, is_reflection_enabled: None, backfaces_enabled: None, physics_material: None, overwrite_physics: None, display_texture: None, object_space_normal_map: None, min_aa_bound: None, max_aa_bound: None, mesh_file_name: None, num_vertices: None, compressed_vertices_len: None, compressed_vertices_data: None, num_indices: None, compressed_indices_len: None, compressed_indices_data: None, compressed_animation_vertices_len: None, compressed_animation_vertices_data: None, depth_bias: 0.0, add_blend: None, use_depth_mask: None, alpha: None, color: None, light_map: None, reflection_probe: None, reflection_strength: None, refraction_probe: None, refraction_thickness: None, is_locked: false, editor_layer: None, editor_layer_name: None, editor_layer_visibility: None, part_group_name: None }"),
    ("Ramp", "Ramp { height_bottom: 0.0, height_top: 50.0, width_bottom: 75.0, width_top: 60.0, material: \"\", ramp_type: Flat, name: \"\", image: \"\", image_alignment: World, image_walls: true, left_wall_height: 62.0, right_wall_height: 62.0, left_wall_height_visible: 30.0, right_wall_height_visible: 30.0, hit_event: None, threshold: None, elasticity: 0.0, friction: 0.0, scatter: 0.0, is_collidable: true, is_visible: true, depth_bias: 0.0, wire_diameter: 8.0, wire_distance_x: 38.0, wire_distance_y: 88.0, is_reflection_enabled: None, physics_material: None, overwrite_physics: None, drag_points: [], timer: TimerData { is_enabled: false, interval: 0 }, is_locked: false, editor_layer: None, editor_layer_name: None, editor_layer_visibility: None, part_group_name: None }"),
    ("Reel", "Reel { ver1: Vertex2D { x: 0.0, y: 0.0 }, ver2: Vertex2D { x: 0.0, y: 0.0 }, back_color: Color { unused: 0, r: 64, g: 64, b: 64 }, is_transparent: false, image: \"\", sound: \"\", name: \"\", width: 30.0, height: 40.0, reel_count: 5.0, reel_spacing: 4.0, motor_steps: 2.0, digit_range: 9.0, update_interval: 50, use_image_grid: false, is_visible: true, images_per_grid_row: 1, timer: TimerData { is_enabled: false, interval: 0 }, is_locked: false, editor_layer: None, editor_layer_name: None, editor_layer_visibility: None, part_group_name: None }"),
    ("Rubber", "Rubber { height: 25.0, hit_height: None, thickness: 8, hit_event: false, material: \"\", name: \"\", image: \"\", elasticity: 0.0, elasticity_falloff: 0.0, friction: 0.0, scatter: 0.0, is_collidable: true, is_visible: true, radb: None, static_rendering: true, show_in_editor: true, rot_x: 0.0, rot_y: 0.0, rot_z: 0.0, is_reflection_enabled: None, physics_material: None, overwrite_physics: None, timer: TimerData { is_enabled: false, interval: 0 }, is_locked: false, editor_layer: None, editor_layer_name: None, editor_layer_visibility: None, part_group_name: None, drag_points: [] }"),
    ("Spinner", "Spinner { name: \"\", center: Vertex2D { x: 0.0, y: 0.0 }, rotation: 0.0, height: 60.0, length: 80.0, damping: 0.9879, angle_max: 0.0, angle_min: 0.0, elasticity: 0.3, is_visible: true, show_bracket: true, material: \"\", image: \"\", surface: \"\", is_reflection_enabled: None, timer: TimerData { is_enabled: false, interval: 0 }, is_locked: false, editor_layer: None, editor_layer_name: None, editor_layer_visibility: None, part_group_name: None }"),
    ("TextBox", "TextBox { ver1: Vertex2D { x: 0.0, y: 0.0 }, ver2: Vertex2D { x: 0.0, y: 0.0 }, back_color: Color { unused: 0, r: 0, g: 0, b: 0 }, font_color: Color { unused: 0, r: 255, g: 255, b: 255 }, intensity_scale: 1.0, text: \"\", name: \"\", align: Left, is_transparent: false, is_dmd: None, font: Font { charset: 0, style: {}, weight: 0, size: 400, name: \"Arial\" }, timer: TimerData { is_enabled: false, interval: 0 }, is_locked: false, editor_layer: None, editor_layer_name: None, editor_layer_visibility: None, part_group_name: None }"),
    ("Timer", "Timer { center: Vertex2D { x: 0.0, y: 0.0 }, name: \"Timer\", backglass: false, timer: TimerData { is_enabled: false, interval: 0 }, is_locked: false, editor_layer: None, editor_layer_name: None, editor_layer_visibility: None, part_group_name: None }"),
    ("Trigger", "Trigger { name: \"\", center: Vertex2D { x: 0.0, y: 0.0 }, radius: 25.0, rotation: 0.0, wire_thickness: None, scale_x: 0.0, scale_y: 0.0, material: \"\", surface: \"\", is_visible: true, is_enabled: true, hit_height: 50.0, shape: WireA, anim_speed: 0.0, is_reflection_enabled: None, timer: TimerData { is_enabled: false, interval: 0 }, is_locked: false, editor_layer: None, editor_layer_name: None, editor_layer_visibility: None, part_group_name: None, drag_points: [] }"),
    ("Wall", "Wall { name: \"\", hit_event: false, is_droppable: false, is_flipbook: false, is_bottom_solid: false, is_collidable: true, threshold: 2.0, image: \"\", side_image: \"\", side_material: \"\", top_material: \"\", slingshot_material: \"\", height_bottom: 0.0, height_top: 50.0, display_texture: false, slingshot_force: 80.0, slingshot_threshold: 0.0, elasticity: 0.3, elasticity_falloff: None, friction: 0.3, scatter: 0.0, is_top_bottom_visible: true, slingshot_animation: true, is_side_visible: true, disable_lighting_top_old: None, disable_lighting_top: None, disable_lighting_below: None, is_reflection_enabled: None, physics_material: None, overwrite_physics: None, timer: TimerData { is_enabled: false, interval: 0 }, is_locked: false, editor_layer: None, editor_layer_name: None, editor_layer_visibility: None, part_group_name: None, drag_points: [] }"),
];
