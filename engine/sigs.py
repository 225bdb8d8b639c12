"""Signatures (argument types and names, result) the contracts in anchors.py were written for."""
SIGS = {'block_utils::clean_name_id_map': [('&mut map_block::map_block::MapBlock', 'block'), ('()', '')],
 'block_utils::merge_blocks': [('&map_block::map_block::MapBlock', 'src_block'),
                               ('&mut map_block::map_block::MapBlock', 'dst_block'),
                               ('spatial::area::Area', 'src_area'),
                               ('spatial::area::Area', 'dst_area'),
                               ('()', '')],
 'block_utils::merge_metadata': [('&std::collections::BTreeMap<u16, map_block::metadata::NodeMetadata>', 'src_meta'),
                                 ('&mut std::collections::BTreeMap<u16, map_block::metadata::NodeMetadata>',
                                  'dst_meta'),
                                 ('spatial::area::Area', 'src_area'),
                                 ('spatial::area::Area', 'dst_area'),
                                 ('()', '')],
 'instance::StatusServer::begin_editing': [('&instance::StatusServer', 'self'), ('()', '')],
 'instance::StatusServer::end_editing': [('&instance::StatusServer', 'self'), ('()', '')],
 'instance::StatusServer::get_confirmation': [('&instance::StatusServer', 'self'), ('bool', '')],
 'instance::StatusServer::get_status': [('&instance::StatusServer', 'self'), ('instance::InstStatus', '')],
 'instance::StatusServer::inc_done': [('&instance::StatusServer', 'self'), ('()', '')],
 'instance::StatusServer::inc_failed': [('&mut instance::StatusServer', 'self'), ('()', '')],
 'instance::StatusServer::log': [('&instance::StatusServer', 'self'),
                                 ('instance::LogType', 'lt'),
                                 ('S', 'msg'),
                                 ('()', '')],
 'instance::StatusServer::log_error': [('&instance::StatusServer', 'self'), ('S', 'msg'), ('()', '')],
 'instance::StatusServer::log_info': [('&instance::StatusServer', 'self'), ('S', 'msg'), ('()', '')],
 'instance::StatusServer::log_warning': [('&instance::StatusServer', 'self'), ('S', 'msg'), ('()', '')],
 'instance::StatusServer::set_show_progress': [('&instance::StatusServer', 'self'), ('bool', 'sp'), ('()', '')],
 'instance::StatusServer::set_state': [('&instance::StatusServer', 'self'),
                                       ('instance::InstState', 'new_state'),
                                       ('()', '')],
 'instance::StatusServer::set_total': [('&instance::StatusServer', 'self'), ('usize', 'total'), ('()', '')],
 'map_block::map_block::MapBlock::deserialize': [('&[u8]', 'src'),
                                                 ('std::result::Result<map_block::map_block::MapBlock, '
                                                  'map_block::MapBlockError>',
                                                  '')],
 'map_block::map_block::MapBlock::serialize': [('&map_block::map_block::MapBlock', 'self'),
                                               ('std::vec::Vec<u8>', '')],
 'map_block::map_block::is_valid_generated': [('&[u8]', 'src'), ('bool', '')],
 'map_block::name_id_map::NameIdMap::get_id': [('&map_block::name_id_map::NameIdMap', 'self'),
                                               ('&[u8]', 'name'),
                                               ('std::option::Option<u16>', '')],
 'map_block::name_id_map::NameIdMap::get_max_id': [('&map_block::name_id_map::NameIdMap', 'self'),
                                                   ('std::option::Option<u16>', '')],
 'map_block::name_id_map::NameIdMap::remove_shift': [('&mut map_block::name_id_map::NameIdMap', 'self'),
                                                     ('u16', 'id'),
                                                     ('()', '')],
 'map_block::static_object::LuaEntityData::deserialize': [('&map_block::static_object::StaticObject', 'src'),
                                                          ('std::result::Result<map_block::static_object::LuaEntityData, '
                                                           'map_block::MapBlockError>',
                                                           '')],
 'map_database::MapDatabase::begin_if_needed': [('&mut map_database::MapDatabase<>', 'self'),
                                                ('std::result::Result<(), map_database::DBError>', '')],
 'map_database::MapDatabase::commit_if_needed': [('&mut map_database::MapDatabase<>', 'self'),
                                                 ('std::result::Result<(), map_database::DBError>', '')],
 'map_database::MapDatabase::delete_block': [('&mut map_database::MapDatabase<>', 'self'),
                                             ('i64', 'map_key'),
                                             ('std::result::Result<(), map_database::DBError>', '')],
 'map_database::MapDatabase::get_block': [('&mut map_database::MapDatabase<>', 'self'),
                                          ('i64', 'map_key'),
                                          ('std::result::Result<std::vec::Vec<u8>, map_database::DBError>', '')],
 'map_database::MapDatabase::iter_rows': [('&mut map_database::MapDatabase<>', 'self'),
                                          ('map_database::MapDatabaseRows<>', '')],
 'map_database::MapDatabase::set_block': [('&mut map_database::MapDatabase<>', 'self'),
                                          ('i64', 'map_key'),
                                          ('&[u8]', 'data'),
                                          ('std::result::Result<(), map_database::DBError>', '')],
 'map_database::MapDatabase::vacuum': [('&mut map_database::MapDatabase<>', 'self'),
                                       ('std::result::Result<(), map_database::DBError>', '')],
 'spatial::InverseBlockIterator::new': [('spatial::area::Area', 'area'), ('spatial::InverseBlockIterator', '')],
 'spatial::area::Area as IntoIterator::into_iter': [('&spatial::area::Area', 'self'),
                                                    ('spatial::area::AreaIterator', '')],
 'spatial::area::AreaIterator::new': [('spatial::vec3::Vec3', 'min'),
                                      ('spatial::vec3::Vec3', 'max'),
                                      ('spatial::area::AreaIterator', '')],
 'spatial::vec3::Vec3::from_block_key': [('i64', 'key'), ('spatial::vec3::Vec3', '')],
 'utils::CacheMap::get': [('&utils::CacheMap<K, V>', 'self'), ('&K', 'key'), ('std::option::Option<&V>', '')],
 'utils::CacheMap::insert': [('&mut utils::CacheMap<K, V>', 'self'), ('K', 'key'), ('V', 'value'), ('()', '')],
 'utils::CacheMap::with_capacity': [('usize', 'cap'), ('utils::CacheMap<K, V>', '')],
 'utils::fmt_big_num': [('u64', 'num'), ('std::string::String', '')],
 'utils::query_keys': [('&mut map_database::MapDatabase<>', 'db'),
                       ('&instance::StatusServer', 'status'),
                       ('&[std::vec::Vec<u8>]', 'search_strs'),
                       ('std::option::Option<spatial::area::Area>', 'area'),
                       ('bool', 'invert'),
                       ('bool', 'include_partial'),
                       ('std::vec::Vec<i64>', '')]}
